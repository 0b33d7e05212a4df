ID = "D07-observed-twice"
PROPERTY = "D07"
NEEDS = "two actions on a stable pair after a trade, without another trade in between"
BREAKS = "an observation which has already been committed is committed again"
EDITS = [("contracts/pair_stable/src/utils.rs", "            if last_obs.ts < precommit_ts {", "            if last_obs.ts <= precommit_ts {")]
DEPS = {"astroport-pair-stable": "contracts/pair_stable", "astroport": "packages/astroport", "astroport-circular-buffer": "packages/circular_buffer"}
MAIN = r"""
use astroport::observation::PrecommitObservation;
use astroport_circular_buffer::BufferManager;
use astroport_pair_stable::state::OBSERVATIONS;
use astroport_pair_stable::utils::accumulate_swap_sizes;
use cosmwasm_std::testing::{mock_env, MockStorage};

fn main() {
    let mut storage = MockStorage::new();
    let mut env = mock_env();
    BufferManager::init(&mut storage, OBSERVATIONS, 10).unwrap();
    for (i, n) in [1u32, 2, 3].into_iter().enumerate() {
        PrecommitObservation::save(&mut storage, &env, (100u128 + i as u128).into(), 100u128.into()).unwrap();
        for _ in 0..3 {
            env.block.time = env.block.time.plus_seconds(5);
            accumulate_swap_sizes(&mut storage, &env).unwrap();
        }
        assert_eq!(BufferManager::new(&storage, OBSERVATIONS).unwrap().head(), n);
    }
}
"""
