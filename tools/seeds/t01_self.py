ID = "T01-module-receiver"
PROPERTY = "T01"
NEEDS = "a holder burning (sending to the module account) part of its tokens and a later historical query of its balance"
BREAKS = "the sender's snapshot is skipped on burns, so its historical balance keeps the burned amount"
EDITS = [("contracts/periphery/tokenfactory_tracker/src/contract.rs",
"""        if from != config.m {
            let from_balance""",
"""        if from != config.m && to != config.m {
            let from_balance""")]
DEPS = {"astroport-tokenfactory-tracker": "contracts/periphery/tokenfactory_tracker", "astroport": '"5.1"'}
MAIN = r"""
use astroport::tokenfactory_tracker::{InstantiateMsg, QueryMsg, SudoMsg};
use astroport_tokenfactory_tracker::{contract::{instantiate, sudo}, query::query};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};
use cosmwasm_std::{coin, coins, from_json, Uint128};

fn main() {
    let mut deps = mock_dependencies();
    let mut env = mock_env();
    instantiate(deps.as_mut(), env.clone(), mock_info("a", &[]), InstantiateMsg { tokenfactory_module_address: "module".into(), tracked_denom: "factory/x/y".into(), track_over_seconds: false }).unwrap();
    deps.querier.update_balance("holder", coins(1_000, "factory/x/y"));
    sudo(deps.as_mut(), env.clone(), SudoMsg::BlockBeforeSend { from: "module".into(), to: "holder".into(), amount: coin(5, "factory/x/y") }).unwrap();
    env.block.height += 10;
    deps.querier.update_balance("holder", coins(1_005, "factory/x/y"));
    sudo(deps.as_mut(), env.clone(), SudoMsg::BlockBeforeSend { from: "holder".into(), to: "module".into(), amount: coin(400, "factory/x/y") }).unwrap();
    deps.querier.update_balance("holder", coins(605, "factory/x/y"));
    let at = env.block.height + 1;
    env.block.height += 10;
    let b: Uint128 = from_json(query(deps.as_ref(), env, QueryMsg::BalanceAt { address: "holder".into(), unit: Some(at.into()) }).unwrap()).unwrap();
    assert_eq!(b.u128(), 605);
}
"""
