ID = "D16-falling-line"
PROPERTY = "D16"
NEEDS = "a question about a time strictly between two committed observations over which the average fell, off the middle between them"
BREAKS = "past prices between two observations run from the later to the earlier average while the price falls"
EDITS = [("packages/astroport/src/observation.rs", """            price_left - price_slope * time_interval""", """            price_right + price_slope * time_interval""")]
DEPS = {"astroport": "packages/astroport", "astroport-circular-buffer": "packages/circular_buffer"}
MAIN = r"""
use astroport::observation::{query_observation, Observation};
use astroport_circular_buffer::{BufferManager, CircularBuffer};
use cosmwasm_std::testing::{mock_dependencies, mock_env};
use cosmwasm_std::Decimal;

const OBS: CircularBuffer<Observation> = CircularBuffer::new("observations_state", "observations_buffer");

fn main() {
    let mut deps = mock_dependencies();
    let env = mock_env();
    let now = env.block.time.seconds();
    BufferManager::init(&mut deps.storage, OBS, 10).unwrap();
    for (ago, p) in [(400u64, 1u64), (300, 9), (200, 5), (100, 5)] {
        let price = Decimal::percent(100 * p);
        let mut buffer = BufferManager::new(&deps.storage, OBS).unwrap();
        let obs = Observation { ts: now - ago, price, price_sma: price };
        buffer.instant_push(&mut deps.storage, &obs).unwrap();
    }
    for (ago, want) in [(400, 100), (375, 300), (300, 900), (275, 800), (225, 600), (200, 500), (150, 500), (0, 500)] {
        let got = query_observation(deps.as_ref(), env.clone(), OBS, ago).unwrap();
        assert_eq!(got.timestamp, now - ago);
        assert_eq!(got.price, Decimal::percent(want), "{ago} seconds ago");
    }
}
"""
