ID = "W01-frozen-list"
PROPERTY = "W01"
NEEDS = "an admin who updates the list after it was frozen"
BREAKS = "the list of admins can be replaced although it is frozen"
EDITS = [("contracts/whitelist/src/contract.rs", "    if !cfg.can_modify(info.sender.as_ref()) {\n        Err(ContractError::Unauthorized {})\n    } else {\n        cfg.admins", "    if !cfg.is_admin(info.sender.as_ref()) {\n        Err(ContractError::Unauthorized {})\n    } else {\n        cfg.admins")]
DEPS = {"astroport-whitelist": "contracts/whitelist", "cw1-whitelist": '"1.1"'}
MAIN = r"""
use astroport_whitelist::contract::{execute, instantiate};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};
use cw1_whitelist::msg::{ExecuteMsg, InstantiateMsg};

fn main() {
    let mut deps = mock_dependencies();
    let msg = InstantiateMsg { admins: vec!["alice".into(), "robert".into()], mutable: true };
    instantiate(deps.as_mut(), mock_env(), mock_info("anyone", &[]), msg).unwrap();
    let set = |admins: &[&str]| ExecuteMsg::UpdateAdmins { admins: admins.iter().map(|a| a.to_string()).collect() };
    let alice = || mock_info("alice", &[]);
    execute(deps.as_mut(), mock_env(), alice(), set(&["alice", "carol"])).unwrap();
    execute(deps.as_mut(), mock_env(), mock_info("carol", &[]), ExecuteMsg::Freeze {}).unwrap();
    execute(deps.as_mut(), mock_env(), alice(), set(&["alice"])).unwrap_err();
}
"""
