ID = "A02-expired-claim"
PROPERTY = "A02"
NEEDS = "a proposal whose ttl has passed, claimed by the proposed owner"
BREAKS = "the claim compares the block height instead of the time with the expiry, so expired proposals can be claimed"
EDITS = [("packages/astroport/src/common.rs", "    if env.block.time.seconds() > p.ttl {", "    if env.block.height > p.ttl {")]
DEPS = {"astroport-factory": "contracts/factory", "astroport": "packages/astroport"}
MAIN = r"""
use astroport::factory::{ExecuteMsg, InstantiateMsg};
use astroport_factory::contract::{execute, instantiate};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};

fn main() {
    let mut deps = mock_dependencies();
    let mut env = mock_env();
    let msg = InstantiateMsg {
        pair_configs: vec![],
        token_code_id: 1,
        fee_address: None,
        generator_address: None,
        owner: "owner".into(),
        whitelist_code_id: 1,
        coin_registry_address: "coins".into(),
        tracker_config: None,
    };
    instantiate(deps.as_mut(), env.clone(), mock_info("owner", &[]), msg).unwrap();
    execute(deps.as_mut(), env.clone(), mock_info("owner", &[]), ExecuteMsg::ProposeNewOwner { owner: "next".into(), expires_in: 100 }).unwrap();
    env.block.time = env.block.time.plus_seconds(101);
    execute(deps.as_mut(), env, mock_info("next", &[]), ExecuteMsg::ClaimOwnership {}).unwrap_err();
}
"""
