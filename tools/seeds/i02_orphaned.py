ID = "I02-orphaned-again"
PROPERTY = "I02"
NEEDS = "a time in which nobody stakes although a reward runs, then a first staker and two updates"
BREAKS = "rewards which accrued while nobody staked are added to the index at every update, not only at the first"
EDITS = [("contracts/tokenomics/incentives/src/state.rs", "                reward_info.orphaned = Decimal256::zero();\n            }\n\n            if need_remove", "                if need_remove {\n                    reward_info.orphaned = Decimal256::zero();\n                }\n            }\n\n            if need_remove")]
DEPS = {"astroport-incentives": "contracts/tokenomics/incentives", "astroport": "packages/astroport"}
MAIN = r"""
use astroport::asset::{AssetInfo, AssetInfoExt};
use astroport::incentives::{IncentivesSchedule, InputSchedule, EPOCHS_START, EPOCH_LENGTH};
use astroport_incentives::state::{Op, PoolInfo, UserInfo};
use cosmwasm_std::testing::{mock_dependencies, mock_env};
use cosmwasm_std::{Timestamp, Uint128};

fn main() {
    let mut deps = mock_dependencies();
    let mut env = mock_env();
    let lp = AssetInfo::native("factory/pair/lp");
    let astro = AssetInfo::native("astro");
    let at = |t: u64| Timestamp::from_seconds(EPOCHS_START + t);
    env.block.time = at(0);
    let mut pool = PoolInfo::default();
    pool.update_rewards(&deps.storage, &env, &lp).unwrap();
    let total = 1000 * EPOCH_LENGTH as u128;
    let schedule = IncentivesSchedule::from_input(&env, &InputSchedule { reward: AssetInfo::native("rew").with_balance(total), duration_periods: 1 }).unwrap();
    pool.incentivize(&mut deps.storage, &lp, &schedule, &astro).unwrap();
    pool.save(&mut deps.storage, &lp).unwrap();
    // nobody stakes for half a week
    env.block.time = at(EPOCH_LENGTH / 2);
    let mut pool = PoolInfo::load(&deps.storage, &lp).unwrap();
    pool.update_rewards(&deps.storage, &env, &lp).unwrap();
    let mut pos = UserInfo::new(&env);
    pos.update_and_sync_position(Op::Add(100u128.into()), &mut pool);
    pool.save(&mut deps.storage, &lp).unwrap();
    let mut paid = Uint128::zero();
    for part in 3..=5 {
        env.block.time = at(EPOCH_LENGTH * part / 5);
        let mut pool = PoolInfo::load(&deps.storage, &lp).unwrap();
        pool.update_rewards(&deps.storage, &env, &lp).unwrap();
        for (_, asset) in pool.calculate_rewards(&mut pos).unwrap() {
            paid += asset.amount;
        }
        pos.update_and_sync_position(Op::Noop, &mut pool);
        pool.save(&mut deps.storage, &lp).unwrap();
    }
    let accrued = (schedule.rps * cosmwasm_std::Decimal256::from_ratio(EPOCH_LENGTH, 1u8)).to_uint_floor();
    assert!(cosmwasm_std::Uint256::from(paid) <= accrued, "paid {paid} of {accrued}");
}
"""
