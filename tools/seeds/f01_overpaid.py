ID = "F01-overpaid-grant"
PROPERTY = "F01"
NEEDS = "an admin who sends more coins along than the grant is for"
BREAKS = "a grant goes through although more was sent than is granted, and the rest stays in the contract unrecorded"
EDITS = [("contracts/periphery/fee_granter/src/contract.rs", "        if sent_amount != amount {", "        if sent_amount < amount {")]
DEPS = {"astroport-fee-granter": "contracts/periphery/fee_granter", "astroport": '"3"'}
MAIN = r"""
use astroport::fee_granter::{ExecuteMsg, InstantiateMsg};
use astroport_fee_granter::contract::{execute, instantiate};
use cosmwasm_std::coins;
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};

fn main() {
    let mut deps = mock_dependencies();
    let msg = InstantiateMsg { owner: "owner".into(), admins: vec![], gas_denom: "gas".into() };
    instantiate(deps.as_mut(), mock_env(), mock_info("owner", &[]), msg).unwrap();
    for sent in [99u128, 101] {
        let msg = ExecuteMsg::Grant { grantee_contract: "grantee".into(), amount: 100u128.into(), bypass_amount_check: false };
        execute(deps.as_mut(), mock_env(), mock_info("owner", &coins(sent, "gas")), msg).unwrap_err();
    }
}
"""
