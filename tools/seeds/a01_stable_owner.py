ID = "A01-stable-factory-owner"
PROPERTY = "A01"
NEEDS = "a stable pool with its own owner, and the factory's owner changing the amplification"
BREAKS = "the factory owner can change settings of a pool which has an owner of its own"
EDITS = [("contracts/pair_stable/src/contract.rs",
"""    if info.sender
        != if let Some(ref owner) = config.owner {
            owner.to_owned()
        } else {
            factory_config.owner
        }
    {
        return Err(ContractError::Unauthorized {});
    }

    let mut response""",
"""    let is_pool_owner = match config.owner {
        Some(ref owner) => info.sender == *owner,
        None => false,
    };
    if !is_pool_owner && info.sender != factory_config.owner {
        return Err(ContractError::Unauthorized {});
    }

    let mut response""")]
DEPS = {"astroport-pair-stable": "contracts/pair_stable", "astroport": "packages/astroport", "cw-storage-plus": '"1.2"'}
MAIN = r"""
use astroport::asset::PairInfo;
use astroport::factory::{Config as FactoryConfig, PairType};
use astroport::pair::{ExecuteMsg, StablePoolUpdateParams};
use astroport_pair_stable::contract::execute;
use astroport_pair_stable::state::{Config, CONFIG};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};
use cosmwasm_std::{to_json_binary, Addr, ContractResult, SystemResult, WasmQuery};

fn main() {
    let mut deps = mock_dependencies();
    deps.querier.update_wasm(|q| match q {
        WasmQuery::Raw { .. } | WasmQuery::Smart { .. } => SystemResult::Ok(ContractResult::Ok(
            to_json_binary(&FactoryConfig {
                owner: Addr::unchecked("factory_owner"),
                token_code_id: 1,
                fee_address: None,
                generator_address: None,
                whitelist_code_id: 1,
                coin_registry_address: Addr::unchecked("coins"),
            })
            .unwrap(),
        )),
        _ => unimplemented!(),
    });
    let env = mock_env();
    CONFIG
        .save(
            deps.as_mut().storage,
            &Config {
                owner: Some(Addr::unchecked("pool_owner")),
                pair_info: PairInfo { asset_infos: vec![], contract_addr: env.contract.address.clone(), liquidity_token: "lp".into(), pair_type: PairType::Stable {} },
                factory_addr: Addr::unchecked("factory"),
                block_time_last: 0,
                init_amp: 1000,
                init_amp_time: 0,
                next_amp: 1000,
                next_amp_time: 0,
                fee_share: None,
                tracker_addr: None,
                greatest_precision: 6,
                cumulative_prices: vec![],
            },
        )
        .unwrap();
    let msg = ExecuteMsg::UpdateConfig { params: to_json_binary(&StablePoolUpdateParams::StopChangingAmp {}).unwrap() };
    execute(deps.as_mut(), env.clone(), mock_info("pool_owner", &[]), msg.clone()).unwrap();
    execute(deps.as_mut(), env, mock_info("factory_owner", &[]), msg).unwrap_err();
}
"""
