ID = "D10-stable-ramp-down"
PROPERTY = "D10"
NEEDS = "a downward change of the amplification, asked about while under way"
BREAKS = "while the amplification of a stable pair goes down it is counted from the target instead of from where it started, so it jumps"
EDITS = [("contracts/pair_stable/src/utils.rs", "            let res = init_amp - (amp_range * elapsed_time).checked_div(time_range)?;", "            let res = next_amp + (amp_range * elapsed_time).checked_div(time_range)?;")]
DEPS = {"astroport-pair-stable": "contracts/pair_stable", "astroport": "packages/astroport"}
MAIN = r"""
use astroport::asset::{AssetInfo, PairInfo};
use astroport::factory::PairType;
use astroport_pair_stable::state::Config;
use astroport_pair_stable::utils::compute_current_amp;
use cosmwasm_std::testing::mock_env;
use cosmwasm_std::{Addr, Timestamp};

fn main() {
    let mut env = mock_env();
    let config = Config {
        owner: None,
        pair_info: PairInfo {
            asset_infos: vec![AssetInfo::native("a"), AssetInfo::native("b")],
            contract_addr: Addr::unchecked("pair"),
            liquidity_token: "lp".into(),
            pair_type: PairType::Stable {},
        },
        factory_addr: Addr::unchecked("factory"),
        block_time_last: 0,
        init_amp: 1000,
        init_amp_time: 1_000_000,
        next_amp: 200,
        next_amp_time: 1_100_000,
        greatest_precision: 6,
        cumulative_prices: vec![],
        fee_share: None,
        tracker_addr: None,
    };
    for (at, want) in [(1_000_000u64, 1000u64), (1_025_000, 800), (1_075_000, 400), (1_100_000, 200)] {
        env.block.time = Timestamp::from_seconds(at);
        assert_eq!(compute_current_amp(&config, &env).unwrap().u64(), want);
    }
}
"""
