ID = "V02-listed-twice"
PROPERTY = "V02"
NEEDS = "a registration which lists the same account twice"
BREAKS = "the account keeps only the schedules it was given last, the tokens deposited for the others are stuck"
EDITS = [("contracts/tokenomics/vesting/src/contract.rs", """    let mut to_deposit = Uint128::zero();

    for mut vesting_account""", """    let mut to_deposit = Uint128::zero();
    let mut to_save = vec![];

    for mut vesting_account"""), ("contracts/tokenomics/vesting/src/contract.rs", """        VESTING_INFO.save(
            deps.storage,
            &account_address,
            &VestingInfo {
                schedules: vesting_account.schedules,
                released_amount,
            },
        )?;
    }

    if to_deposit""", """        to_save.push((
            account_address,
            VestingInfo {
                schedules: vesting_account.schedules,
                released_amount,
            },
        ));
    }

    for (account_address, vesting_info) in to_save {
        VESTING_INFO.save(deps.storage, &account_address, &vesting_info)?;
    }

    if to_deposit""")]
DEPS = {"astroport-vesting": "contracts/tokenomics/vesting", "astroport": '"4"'}
MAIN = r"""
use astroport::asset::AssetInfo;
use astroport::vesting::{ExecuteMsg, InstantiateMsg, QueryMsg, VestingAccount, VestingAccountResponse, VestingSchedule, VestingSchedulePoint};
use astroport_vesting::contract::{execute, instantiate, query};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};
use cosmwasm_std::{coins, from_json};

fn main() {
    let mut deps = mock_dependencies();
    let msg = InstantiateMsg { owner: "owner".into(), vesting_token: AssetInfo::NativeToken { denom: "astro".into() } };
    instantiate(deps.as_mut(), mock_env(), mock_info("owner", &[]), msg).unwrap();
    let given = |amount: u128| VestingAccount {
        address: "user".into(),
        schedules: vec![VestingSchedule { start_point: VestingSchedulePoint { time: 10, amount: amount.into() }, end_point: None }],
    };
    let msg = ExecuteMsg::RegisterVestingAccounts { vesting_accounts: vec![given(100), given(23)] };
    execute(deps.as_mut(), mock_env(), mock_info("owner", &coins(123, "astro")), msg).unwrap();
    let res: VestingAccountResponse = from_json(query(deps.as_ref(), mock_env(), QueryMsg::VestingAccount { address: "user".into() }).unwrap()).unwrap();
    let total: u128 = res.info.schedules.iter().map(|s| s.start_point.amount.u128()).sum();
    assert_eq!(total, 123);
}
"""
