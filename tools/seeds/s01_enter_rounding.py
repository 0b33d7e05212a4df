ID = "S01-enter-rounding"
PROPERTY = "S01"
NEEDS = "a pool whose ASTRO per xASTRO ratio is not integral, and a deposit whose share is fractional"
BREAKS = "entering rounds the minted shares up, so the staker takes value from everyone else with every fractional deposit"
EDITS = [("contracts/tokenomics/staking/src/contract.rs",
"""        amount.multiply_ratio(total_shares, total_deposit)
    };""",
"""        let shares = amount.multiply_ratio(total_shares, total_deposit);
        // shares must be worth at least the deposit
        if shares.multiply_ratio(total_deposit, total_shares) < amount {
            shares + Uint128::one()
        } else {
            shares
        }
    };""")]
DEPS = {"astroport-staking": "contracts/tokenomics/staking", "astroport": "packages/astroport"}
MAIN = r"""
use astroport::staking::{Config, ExecuteMsg, StakingResponse};
use astroport_staking::{contract::execute, state::CONFIG};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};
use cosmwasm_std::{coin, coins, from_json};

fn main() {
    let mut deps = mock_dependencies();
    CONFIG
        .save(deps.as_mut().storage, &Config { astro_denom: "astro".into(), xastro_denom: "x".into() })
        .unwrap();
    let env = mock_env();
    // 3000 ASTRO held including the deposit of 100; 1000 shares
    deps.querier.update_balance(env.contract.address.to_string(), coins(3_000, "astro"));
    deps.querier.update_balance("holder", coins(1_000, "x"));
    let r = execute(deps.as_mut(), env, mock_info("staker", &[coin(100, "astro")]), ExecuteMsg::Enter { receiver: None }).unwrap();
    let d: StakingResponse = from_json(r.data.unwrap()).unwrap();
    // 100 * 1000 / 2900 = 34.48
    assert_eq!(d.xastro_amount.u128(), 34);
}
"""
