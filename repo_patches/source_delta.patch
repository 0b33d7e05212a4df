From 27ed2eebcaf50c7e6e8a050e3e8342cce3ba0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 01/17] fix: xastro_token adds up initial balances listed for
 one address

---
 contracts/tokenomics/xastro_token/src/contract.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/xastro_token/src/contract.rs b/contracts/tokenomics/xastro_token/src/contract.rs
index c49495e..ec4d2d6 100644
--- a/contracts/tokenomics/xastro_token/src/contract.rs
+++ b/contracts/tokenomics/xastro_token/src/contract.rs
@@ -177,7 +177,15 @@ pub fn create_accounts(deps: &mut DepsMut, env: &Env, accounts: &[Cw20Coin]) ->
 
     for row in accounts {
         let address = deps.api.addr_validate(&row.address)?;
-        BALANCES.save(deps.storage, &address, &row.amount, env.block.height)?;
+        // The same address may be listed several times: balances add up, exactly as the supply does
+        BALANCES.update(
+            deps.storage,
+            &address,
+            env.block.height,
+            |balance: Option<Uint128>| -> StdResult<_> {
+                Ok(balance.unwrap_or_default().checked_add(row.amount)?)
+            },
+        )?;
         total_supply += row.amount;
     }
 
-- 
2.43.0


From 1128adfa765821a20d402f53f911ff69fc27b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 02/17] fix: sale tax pair honours min_lp_to_receive and
 min_assets_to_receive

---
 contracts/pair_xyk_sale_tax/src/contract.rs | 55 ++++++++++++++++++++-
 contracts/pair_xyk_sale_tax/src/error.rs    | 15 +++++-
 2 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_xyk_sale_tax/src/contract.rs b/contracts/pair_xyk_sale_tax/src/contract.rs
index 2e889d8..c52ab69 100644
--- a/contracts/pair_xyk_sale_tax/src/contract.rs
+++ b/contracts/pair_xyk_sale_tax/src/contract.rs
@@ -229,7 +229,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
-            ..
+            min_lp_to_receive,
         } => provide_liquidity(
             deps,
             env,
@@ -238,6 +238,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
+            min_lp_to_receive,
         ),
         ExecuteMsg::Swap {
             offer_asset,
@@ -265,7 +266,10 @@ pub fn execute(
             )
         }
         ExecuteMsg::UpdateConfig { params } => update_config(deps, info, params),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NonSupported {}),
     }
 }
@@ -335,7 +339,10 @@ pub fn receive_cw20(
 /// * **receiver** is an optional parameter which defines the receiver of the LP tokens.
 /// If no custom receiver is specified, the pair will mint LP tokens for the function caller.
 ///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
+///
 /// NOTE - the address that wants to provide liquidity should approve the pair contract to pull its relevant tokens.
+#[allow(clippy::too_many_arguments)]
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
@@ -344,6 +351,7 @@ pub fn provide_liquidity(
     slippage_tolerance: Option<Decimal>,
     auto_stake: Option<bool>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -394,6 +402,14 @@ pub fn provide_liquidity(
         )?);
     }
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
+
     // Mint LP tokens for the sender or for the receiver (if set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
     messages.extend(mint_liquidity_token_message(
@@ -492,6 +508,7 @@ pub fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage).unwrap();
 
@@ -512,6 +529,8 @@ pub fn withdraw_liquidity(
         return Err(StdError::generic_err("Imbalanced withdraw is currently disabled").into());
     };
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     if config.track_asset_balances {
         for (i, pool) in pools.iter().enumerate() {
             BALANCES.save(
@@ -1516,3 +1535,35 @@ mod tests {
         assert_eq!(commission_amount, Uint128::zero());
     }
 }
+
+/// Checks that every refunded asset reaches the minimum amount requested by the user (if any).
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets) = min_assets_to_receive {
+        if refund_assets.len() != min_assets.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets.len(),
+            });
+        }
+
+        for min_asset in &min_assets {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|refund_asset| refund_asset.info == min_asset.info)
+                .ok_or_else(|| ContractError::AssetMismatch {})?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
+        }
+    }
+
+    Ok(())
+}
diff --git a/contracts/pair_xyk_sale_tax/src/error.rs b/contracts/pair_xyk_sale_tax/src/error.rs
index cfdb47e..30d230d 100644
--- a/contracts/pair_xyk_sale_tax/src/error.rs
+++ b/contracts/pair_xyk_sale_tax/src/error.rs
@@ -1,5 +1,5 @@
 use astroport::asset::MINIMUM_LIQUIDITY_AMOUNT;
-use cosmwasm_std::{OverflowError, StdError};
+use cosmwasm_std::{OverflowError, StdError, Uint128};
 use cw_utils::{ParseReplyError, PaymentError};
 use thiserror::Error;
 
@@ -36,6 +36,19 @@ pub enum ContractError {
     #[error("Operation exceeds max splippage tolerance")]
     MaxSlippageAssertion {},
 
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Doubling assets in asset infos")]
     DoublingAssets {},
 
-- 
2.43.0


From 28e47b70f6dad70fdf91a7e0bcfef15fa612954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 03/17] fix: concentrated pair honours min_assets_to_receive

---
 contracts/pair_concentrated/src/contract.rs | 40 ++++++++++++++++++++-
 contracts/pair_concentrated/src/error.rs    | 10 ++++++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 3d5dfb6..0f944b8 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -366,7 +366,10 @@ pub fn execute(
             })
             .map_err(Into::into)
         }
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -557,6 +560,7 @@ fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -610,6 +614,8 @@ fn withdraw_liquidity(
         })
         .collect::<StdResult<Vec<_>>>()?;
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     messages.extend(
         refund_assets
             .iter()
@@ -920,3 +926,35 @@ pub fn migrate(deps: DepsMut, _env: Env, _msg: Empty) -> Result<Response, Contra
         .add_attribute("new_contract_name", CONTRACT_NAME)
         .add_attribute("new_contract_version", CONTRACT_VERSION))
 }
+
+/// Checks that every refunded asset reaches the minimum amount requested by the user (if any).
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets) = min_assets_to_receive {
+        if refund_assets.len() != min_assets.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets.len(),
+            });
+        }
+
+        for min_asset in &min_assets {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|refund_asset| refund_asset.info == min_asset.info)
+                .ok_or_else(|| ContractError::InvalidAsset(min_asset.info.to_string()))?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
+        }
+    }
+
+    Ok(())
+}
diff --git a/contracts/pair_concentrated/src/error.rs b/contracts/pair_concentrated/src/error.rs
index b4e0cd5..761dead 100644
--- a/contracts/pair_concentrated/src/error.rs
+++ b/contracts/pair_concentrated/src/error.rs
@@ -70,6 +70,16 @@ pub enum ContractError {
     #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
     ProvideSlippageViolation(Uint128, Uint128),
 
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Operation is not supported")]
     NotSupported {},
 }
-- 
2.43.0


From 247c52a88e4c566d8f3ca245db5c5793040993f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 04/17] fix: transmuter pair honours min_lp_to_receive and
 min_assets_to_receive

---
 contracts/pair_transmuter/src/contract.rs | 52 ++++++++++++++++++++++-
 contracts/pair_transmuter/src/error.rs    | 13 ++++++
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_transmuter/src/contract.rs b/contracts/pair_transmuter/src/contract.rs
index ae87870..6cd5510 100644
--- a/contracts/pair_transmuter/src/contract.rs
+++ b/contracts/pair_transmuter/src/contract.rs
@@ -108,6 +108,7 @@ pub fn execute(
             assets,
             auto_stake,
             receiver,
+            min_lp_to_receive,
             ..
         } => {
             ensure!(
@@ -115,7 +116,7 @@ pub fn execute(
                 StdError::generic_err("Auto stake is not supported")
             );
 
-            provide_liquidity(deps, env, info, assets, receiver)
+            provide_liquidity(deps, env, info, assets, receiver, min_lp_to_receive)
         }
         ExecuteMsg::Swap {
             offer_asset,
@@ -123,7 +124,10 @@ pub fn execute(
             ask_asset_info,
             ..
         } => swap(deps, info, offer_asset, ask_asset_info, to),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -138,6 +142,7 @@ pub fn withdraw_liquidity(
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
@@ -201,6 +206,8 @@ pub fn withdraw_liquidity(
         assets
     };
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     let send_msgs = refund_assets
         .clone()
         .into_iter()
@@ -225,12 +232,15 @@ pub fn withdraw_liquidity(
 /// * **assets** vector with assets meant to be provided to the pool.
 ///
 /// * **receiver** address that receives LP tokens. If this address isn't specified, the function will default to the caller.
+///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     check_assets(deps.api, &assets)?;
 
@@ -244,6 +254,12 @@ pub fn provide_liquidity(
         .map(|asset| config.normalize(asset).unwrap())
         .fold(Uint128::zero(), |acc, asset| acc + asset.amount);
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+    ensure!(
+        share >= min_amount_lp,
+        ContractError::ProvideSlippageViolation(share, min_amount_lp)
+    );
+
     // Mint LP token for the caller (or for the receiver if it was set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
 
@@ -304,3 +320,35 @@ pub fn swap(
 pub fn migrate(_deps: DepsMut, _env: Env, _msg: Empty) -> Result<Response, ContractError> {
     unimplemented!("No safe path available for migration from cw20 to tokenfactory LP tokens")
 }
+
+/// Checks that every refunded asset reaches the minimum amount requested by the user (if any).
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets) = min_assets_to_receive {
+        if refund_assets.len() != min_assets.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets.len(),
+            });
+        }
+
+        for min_asset in &min_assets {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|refund_asset| refund_asset.info == min_asset.info)
+                .ok_or_else(|| ContractError::InvalidAsset(min_asset.info.to_string()))?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
+        }
+    }
+
+    Ok(())
+}
diff --git a/contracts/pair_transmuter/src/error.rs b/contracts/pair_transmuter/src/error.rs
index bf76c08..2725382 100644
--- a/contracts/pair_transmuter/src/error.rs
+++ b/contracts/pair_transmuter/src/error.rs
@@ -26,6 +26,19 @@ pub enum ContractError {
     #[error("Invalid reply message")]
     FailedToParseReply {},
 
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Doubling assets in asset infos")]
     DoublingAssets {},
 
-- 
2.43.0


From 26416f75d1f9a9a15a21c58a7256350e303c1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 05/17] fix: stable pair accumulates prices over the reserves
 before a deposit

---
 contracts/pair_stable/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 332edbc..8673ad1 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -346,7 +346,7 @@ pub fn provide_liquidity(
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
-    let pools = config
+    let mut pools = config
         .pair_info
         .query_pools(&deps.querier, &env.contract.address)?
         .into_iter()
@@ -384,6 +384,8 @@ pub fn provide_liquidity(
                 // If the asset is a native token, the pool balance already increased
                 // To calculate the pool balance properly, we should subtract the user deposit from the recorded pool token amount
                 *pool = pool.checked_sub(deposit.amount)?;
+                // Prices are accumulated over the reserves before this deposit
+                pools.insert(deposit.info.clone(), *pool);
             }
         }
     }
-- 
2.43.0


From 65ac6f621c90606c369cf573c85bc3d7fccc8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 06/17] fix: transmuter swaps only assets of the pool

---
 contracts/pair_transmuter/src/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/pair_transmuter/src/utils.rs b/contracts/pair_transmuter/src/utils.rs
index e70f600..983c23d 100644
--- a/contracts/pair_transmuter/src/utils.rs
+++ b/contracts/pair_transmuter/src/utils.rs
@@ -60,6 +60,12 @@ pub fn assert_and_swap(
 ) -> Result<Asset, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
+    // Normalization coefficients are keyed by stringified asset info,
+    // thus they don't tell a cw20 token from a native coin
+    if !config.pair_info.asset_infos.contains(&offer_asset.info) {
+        return Err(ContractError::InvalidAsset(offer_asset.info.to_string()));
+    }
+
     let offer_asset = config.normalize(offer_asset)?;
 
     let pools = config
-- 
2.43.0


From 6eb634b0b33265c1a79248db54c90741362ae308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 07/17] fix: concentrated pools: an update of mid_fee alone
 must keep it below out_fee

---
 packages/astroport_pcl_common/src/state.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 95d67cd..d638fca 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -98,17 +98,18 @@ impl PoolParams {
 
         if let Some(out_fee) = update_params.out_fee {
             validate_param("out_fee", out_fee, MIN_FEE, MAX_FEE)?;
-            if out_fee <= self.mid_fee {
-                return Err(StdError::generic_err(format!(
-                    "out_fee {out_fee} must be more than mid_fee {}",
-                    self.mid_fee
-                ))
-                .into());
-            }
             self.out_fee = out_fee;
             attributes.push(attr("out_fee", out_fee.to_string()));
         }
 
+        if self.out_fee <= self.mid_fee {
+            return Err(StdError::generic_err(format!(
+                "out_fee {} must be more than mid_fee {}",
+                self.out_fee, self.mid_fee
+            ))
+            .into());
+        }
+
         if let Some(fee_gamma) = update_params.fee_gamma {
             validate_param("fee_gamma", fee_gamma, FEE_GAMMA_MIN, FEE_GAMMA_MAX)?;
             self.fee_gamma = fee_gamma;
-- 
2.43.0


From 4d654c0abf9333990156bb44b4f1088dc942ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 08/17] fix: factory: an update validates the address of the
 token factory module before storing it

---
 contracts/factory/src/contract.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 91ee32a..cdfd7bb 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -443,7 +443,10 @@ pub fn update_tracker_config(
             deps.storage,
             &TrackerConfig {
                 code_id: tracker_code_id,
-                token_factory_addr: tokenfactory_tracker,
+                token_factory_addr: deps
+                    .api
+                    .addr_validate(&tokenfactory_tracker)?
+                    .to_string(),
             },
         )?;
     }
-- 
2.43.0


From f317a6e6f816598123168d439b21f98742b91bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 09/17] fix: incentives: a page of stakers holds no more
 entries than asked for

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..1b0e06f 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -496,7 +496,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0


From 7f3b792b921fc934b00c8eb813264c3b47e1eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 10/17] fix: incentives: orphaned part of a removed reward is
 not recorded as orphaned once more

---
 contracts/tokenomics/incentives/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 1b0e06f..4fa9306 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -379,9 +379,10 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards are part of the returned amount thus they must not be accounted twice
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From 9cb1753eb7ccef756f65025cd68797d76c4a2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 11/17] fix: incentives: indexes of rewards finished in the
 same block are kept

---
 contracts/tokenomics/incentives/src/state.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 4fa9306..e9fb9e0 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -454,11 +454,18 @@ impl PoolInfo {
                         let finished_indexes = group
                             .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
                             .collect_vec();
-                        FINISHED_REWARD_INDEXES.save(
-                            storage,
-                            (lp_token, self.last_update_ts),
-                            &finished_indexes,
-                        )
+                        // Keep indexes of rewards which were finished earlier in this block
+                        FINISHED_REWARD_INDEXES
+                            .update::<_, StdError>(
+                                storage,
+                                (lp_token, self.last_update_ts),
+                                |prev_indexes| {
+                                    let mut indexes = prev_indexes.unwrap_or_default();
+                                    indexes.extend(finished_indexes);
+                                    Ok(indexes)
+                                },
+                            )
+                            .map(|_| ())
                     } else {
                         // Processing finished schedules with orphaned rewards
                         for (reward, (_, orphaned_amount)) in group {
-- 
2.43.0


From cd949eb53370afeb80a084480b2631e14a9f839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 12/17] fix: incentives: a pool of two newly blocked tokens is
 disabled once

---
 contracts/tokenomics/incentives/src/execute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..4d11abf 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,10 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    // A pool can contain several tokens from the list but must be disabled only once
+                    if asset_infos.contains(token_to_block)
+                        && !to_disable.iter().any(|(disabled, _)| disabled == lp_asset)
+                    {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From ceaced4a1691aedf4006d0f1a44829988ae5fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 13/17] fix: incentives: empty orphaned entries do not stay in
 the way of others

---
 contracts/tokenomics/incentives/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..e6623d5 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -464,10 +464,10 @@ pub fn claim_orphaned_rewards(
     ];
 
     for (reward_info_binary, amount) in orphaned_rewards {
+        ORPHANED_REWARDS.remove(deps.storage, &reward_info_binary);
+
         // Send orphaned rewards
         if !amount.is_zero() {
-            ORPHANED_REWARDS.remove(deps.storage, &reward_info_binary);
-
             let reward_info = from_key_to_asset_info(reward_info_binary)?;
             let reward_asset = reward_info.with_balance(amount);
 
-- 
2.43.0


From 6341fe8ee32dc474ce77d2c26c560f1f8e1cc356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 14/17] fix: incentives: deactivating works while tokens per
 second are zero

---
 contracts/tokenomics/incentives/src/utils.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index e6623d5..b578522 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -112,16 +112,18 @@ pub fn deactivate_pool(
 
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
-    match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
-            let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
-
-            let (ind, _) = active_pools
-                .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+    let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
+
+    // Active pool must lose its alloc points even if ASTRO per second is currently zero
+    let maybe_active = active_pools
+        .iter()
+        .position(|(lp_asset, _)| lp_asset == &lp_token_asset);
+
+    match maybe_active {
+        Some(ind) => {
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_token_asset)?;
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
             pool_info.disable_astro_rewards();
             pool_info.save(deps.storage, &lp_token_asset)?;
-- 
2.43.0


From 0fed9d47335478e37893f6375fa2f814b0049130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 15/17] fix: incentives: index of a reward removed right after
 a claim is not used for its next schedules

---
 contracts/tokenomics/incentives/src/state.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index e9fb9e0..4de8027 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -580,11 +580,12 @@ impl UserInfo {
         lp_token: &AssetInfo,
         pool_info: &PoolInfo,
     ) -> StdResult<()> {
+        // User could have claimed in the same block in which the reward was deregistered
         let mut finished: HashSet<_> = FINISHED_REWARD_INDEXES
             .prefix(lp_token)
             .range(
                 storage,
-                Some(Bound::exclusive(self.last_claim_time)),
+                Some(Bound::inclusive(self.last_claim_time)),
                 None,
                 Order::Ascending,
             )
@@ -623,6 +624,12 @@ impl UserInfo {
         lp_token: &AssetInfo,
         pool_info: &PoolInfo,
     ) -> StdResult<Vec<Asset>> {
+        // User index of a reward deregistered in the same block in which user claimed last time
+        // doesn't belong to the next schedules of this reward
+        let finished_at_last_claim = FINISHED_REWARD_INDEXES
+            .may_load(storage, (lp_token, self.last_claim_time))?
+            .unwrap_or_default();
+
         let finished_iter = FINISHED_REWARD_INDEXES
             .prefix(lp_token)
             .range(
@@ -653,7 +660,11 @@ impl UserInfo {
                     .enumerate()
                     .map(|(i, (reward_info, finished_index))| {
                         // User could have claimed this reward from the first schedule before it was finished
-                        let amount = if i == 0 {
+                        let amount = if i == 0
+                            && !finished_at_last_claim
+                                .iter()
+                                .any(|(info, _)| info == &reward_info)
+                        {
                             let user_reward_index = self
                                 .last_rewards_index
                                 .iter()
-- 
2.43.0


From 6d386a6d000c3c9ff50c60ca8061ad5e466428b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 16/17] fix: xastro pair: quotes of the first stake follow the
 staking contract also when it already holds ASTRO

---
 contracts/pair_xastro/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 853c57f..ed074bf 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -190,7 +190,8 @@ pub fn predict_stake(
 ) -> Result<Uint128, ContractError> {
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
-    if total_deposit.is_zero() {
+    // Same condition as in the staking contract: tokens may have been sent there before the first stake
+    if total_shares.is_zero() || total_deposit.is_zero() {
         if amount.saturating_sub(MINIMUM_STAKE_AMOUNT).is_zero() {
             return Err(ContractError::MinimumStakeAmountError {});
         }
-- 
2.43.0


From 4c1777c6a4c33bd3bf250f511202cd3d33997303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:43 +0000
Subject: [PATCH 17/17] fix: moving average drops the entry which is
 overwritten

The circular buffer's head points to the next slot to write, which holds the oldest value once the buffer is full. Reading head + 1 subtracted the second oldest value instead, so the moving average kept the effect of dropped observations forever.
---
 contracts/pair_concentrated/src/utils.rs | 4 ++--
 contracts/pair_stable/src/utils.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 4a64a15..41abcb0 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -69,9 +69,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 71341e2..2e90587 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -346,9 +346,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
-- 
2.43.0

