From 7842c0e2d57b90f4503ce22ca7b1d2605f0055b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:42 +0000
Subject: [PATCH 01/39] fix: fail over to the next service on any requests
 error

A truncated body (ChunkedEncodingError), a non-JSON reply (JSONDecodeError), a
redirect loop or an HTTP error raised by raise_for_status escaped from
NetworkAPI instead of being treated as a failed service.
---
 bit/network/services.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..c973517 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -950,6 +950,7 @@ class NetworkAPI:
         requests.exceptions.ConnectionError,
         requests.exceptions.Timeout,
         requests.exceptions.ReadTimeout,
+        requests.exceptions.RequestException,
         ExcessiveAddress,
     )
 
-- 
2.43.0


From 1125ec1bd141f880b632bf6ad61294add4580589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:50 +0000
Subject: [PATCH 02/39] fix: include unconfirmed transactions in Blockstream
 testnet history

The testnet listing only walked the confirmed chain, so mempool transactions
were silently missing; mirror the mainnet implementation.
---
 bit/network/services.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index c973517..11326c5 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -397,10 +397,26 @@ class BlockstreamAPI:
 
     @classmethod
     def get_transactions_testnet(cls, address):
+        #! Blockstream returns at most 50 mempool (unconfirmed) transactions and ignores the rest
+        mempool_endpoint = cls.TEST_ADDRESS_API + '/txs/mempool'
+
         endpoint = cls.TEST_ADDRESS_API + '/txs/chain/{}'
 
         transactions = []
 
+        # Add mempool (unconfirmed) transactions
+        r = requests.get(mempool_endpoint.format(address), timeout=DEFAULT_TIMEOUT)
+        if r.status_code == 400:  # pragma: no cover
+            return []
+        elif r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
+        unconfirmed = [tx['txid'] for tx in r.json()]
+
+        # It is safer to raise exception if API returns exactly 50 unconfirmed
+        # transactions, as there could be more that the API is unaware of.
+        if len(unconfirmed) == 50:  # pragma: no cover
+            raise ExcessiveAddress
+
         r = requests.get(endpoint.format(address, ''), timeout=DEFAULT_TIMEOUT)
         if r.status_code == 400:  # pragma: no cover
             return []
@@ -408,7 +424,7 @@ class BlockstreamAPI:
             raise ConnectionError
         response = r.json()
 
-        # The first 50 mempool and 25 confirmed transactions are shown with no
+        # The first 25 confirmed transactions are shown with no
         # indication of the number of total transactions.
         total_txs = len(response)
 
@@ -418,6 +434,8 @@ class BlockstreamAPI:
             response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
             total_txs = len(response)
 
+        transactions.extend(unconfirmed)
+
         return transactions
 
     @classmethod
-- 
2.43.0


From f8e8ae34cf6817008868200b44a9d28706f062c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:51 +0000
Subject: [PATCH 03/39] fix: do not report an empty wallet when an unspent
 query fails

Blockchain.info answers 500 for any internal error, not only for 'No free
outputs to spend', and Blockstream answers 400 on testnet for addresses with
too many history entries; both were returned as an empty list of unspents.
---
 bit/network/services.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 11326c5..faf5208 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -498,8 +498,9 @@ class BlockstreamAPI:
 
         r = requests.get(cls.TEST_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
-        if r.status_code == 400:  # pragma: no cover
-            return []
+        #! BlockstreamAPI blocks addresses with "too many" UTXOs.
+        if r.status_code == 400 and r.text == "Too many history entries":
+            raise ExcessiveAddress
         elif r.status_code != 200:  # pragma: no cover
             raise ConnectionError
 
@@ -739,7 +740,7 @@ class BlockchainAPI:
 
         r = requests.get(endpoint, params=payload, timeout=DEFAULT_TIMEOUT)
 
-        if r.status_code == 500:  # pragma: no cover
+        if r.status_code == 500 and r.text == 'No free outputs to spend':  # pragma: no cover
             return []
         elif r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-- 
2.43.0


From b13d3b0a7b2a97a0dacb01731e7827b1d078f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:01 +0000
Subject: [PATCH 04/39] fix: return an empty list for an address Blockchair has
 not seen

get_unspent returned None on 404, which callers iterate over.
---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index faf5208..31fd1e6 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -228,7 +228,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -271,7 +271,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From 11fd5c7117598d3e869c693e168ec468945bc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 05/39] fix: check the status of every page of a listing

Only the first page's status was checked; an error reply to a later page was
taken as the end of the listing (truncated result) or raised a TypeError.
---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 31fd1e6..444674b 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -388,7 +388,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -431,7 +434,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -624,9 +630,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -665,9 +674,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -717,7 +729,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From 844b70825821740f213fd4c4d120677895868d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:34 +0000
Subject: [PATCH 06/39] fix: bound the wait for a connected node by the service
 timeout

---
 bit/network/services.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 444674b..c72186c 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -93,7 +93,9 @@ class RPCMethod:
     def __call__(self, *args):
         payload = json.dumps({"method": self._rpc_method, "params": list(args), "jsonrpc": "2.0"})
         try:
-            response = self._host._session.post(self._host._url, headers=self._host._headers, data=payload)
+            response = self._host._session.post(
+                self._host._url, headers=self._host._headers, data=payload, timeout=DEFAULT_TIMEOUT
+            )
         except requests.exceptions.ConnectionError:
             raise ConnectionError
         if response.status_code not in (200, 500):
-- 
2.43.0


From 9c987790ac5c6eb81d434c67a55cce9741d03111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:25 +0000
Subject: [PATCH 07/39] fix: do not change the decimal context when asking a
 node for a balance

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index c72186c..e952cb0 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), 'btc')
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From 2d7e45d0de4fe8d2753a7dd82887a366f5732e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:52 +0000
Subject: [PATCH 08/39] fix: fail over to the other rate service when one
 stalls or sends an unreadable reply

---
 bit/network/rates.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index cc9222c..449f57c 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -1,5 +1,5 @@
 from collections import OrderedDict
-from decimal import ROUND_DOWN
+from decimal import ROUND_DOWN, InvalidOperation
 from functools import wraps
 from time import time
 
@@ -9,6 +9,7 @@ from bit.constants import SATOSHI, uBTC, mBTC, BTC
 from bit.utils import Decimal
 
 DEFAULT_CACHE_TIME = 60
+REQUEST_TIMEOUT = 10
 
 # Constant for use in deriving exchange
 # rates when given in terms of 1 BTC.
@@ -106,7 +107,7 @@ class BitpayRates:
     @classmethod
     def currency_to_satoshi(cls, currency):
         headers = {"x-accept-version": "2.0.0", "Accept": "application/json"}
-        r = requests.get(cls.SINGLE_RATE + currency, headers=headers)
+        r = requests.get(cls.SINGLE_RATE + currency, headers=headers, timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.json()['data']['rate']
         return int(ONE / Decimal(rate) * BTC)
@@ -201,7 +202,7 @@ class BlockchainRates:
 
     @classmethod
     def currency_to_satoshi(cls, currency):
-        r = requests.get(cls.SINGLE_RATE.format(currency))
+        r = requests.get(cls.SINGLE_RATE.format(currency), timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.text
         return int(Decimal(rate) * BTC)
@@ -296,7 +297,7 @@ class RatesAPI:
     number of satoshi.
     """
 
-    IGNORED_ERRORS = (requests.exceptions.ConnectionError, requests.exceptions.HTTPError, requests.exceptions.Timeout)
+    IGNORED_ERRORS = (requests.exceptions.RequestException, InvalidOperation)
 
     USD_RATES = [BitpayRates.usd_to_satoshi, BlockchainRates.usd_to_satoshi]
     EUR_RATES = [BitpayRates.eur_to_satoshi, BlockchainRates.eur_to_satoshi]
-- 
2.43.0


From b4643d29eaa95126d2ff708268193d99be000598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:52 +0000
Subject: [PATCH 09/39] fix: fall back to the cached or default fee when the
 fee service stalls or sends an unreadable reply

---
 bit/network/fees.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 643547a..5d50a0b 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -3,12 +3,13 @@ from functools import wraps
 from time import time
 
 import requests
-from requests.exceptions import ConnectionError, HTTPError, Timeout
+from requests.exceptions import RequestException
 
 # Default fees last updated 2019-04-02
 DEFAULT_FEE_FAST = 72
 DEFAULT_FEE_HOUR = 62
 DEFAULT_CACHE_TIME = 60 * 10
+REQUEST_TIMEOUT = 10
 URL = 'https://mempool.space/api/v1/fees/recommended'
 
 
@@ -29,7 +30,7 @@ def get_fee(fast=True):
     :type fast: ``bool``
     :rtype: ``int``
     """
-    return requests.get(URL).json()['fastestFee' if fast else 'hourFee']
+    return requests.get(URL, timeout=REQUEST_TIMEOUT).json()['fastestFee' if fast else 'hourFee']
 
 
 def get_fee_local_cache(f):
@@ -49,13 +50,13 @@ def get_fee_local_cache(f):
 
             if not cached_fee_fast or now - fast_last_update > DEFAULT_CACHE_TIME:
                 try:
-                    request = requests.get(URL)
+                    request = requests.get(URL, timeout=REQUEST_TIMEOUT)
                     # If we have a non 2XX status code, raise HTTPError.
                     request.raise_for_status()
                     # Otherwise, try to parse json as normal.
                     cached_fee_fast = request.json()['fastestFee']
                     fast_last_update = now
-                except (ConnectionError, HTTPError, Timeout):  # pragma: no cover
+                except RequestException:  # pragma: no cover
                     if cached_fee_fast is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (fast) of {}'.format(DEFAULT_FEE_FAST)
@@ -73,13 +74,13 @@ def get_fee_local_cache(f):
 
             if not cached_fee_hour or now - hour_last_update > DEFAULT_CACHE_TIME:
                 try:
-                    request = requests.get(URL)
+                    request = requests.get(URL, timeout=REQUEST_TIMEOUT)
                     # If we have a non 2XX status code, raise HTTPError.
                     request.raise_for_status()
                     # Otherwise, try to parse json as normal.
                     cached_fee_hour = request.json()['hourFee']
                     hour_last_update = now
-                except (ConnectionError, HTTPError, Timeout):  # pragma: no cover
+                except RequestException:  # pragma: no cover
                     if cached_fee_hour is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (hour) of {}'.format(DEFAULT_FEE_HOUR)
-- 
2.43.0


From f0372d271b28b5bb94aafe3fbd49ab4b6efd3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:52 +0000
Subject: [PATCH 10/39] fix: do not cut exchange rates off to whole satoshi

---
 bit/network/rates.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index 449f57c..77b05fc 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -110,7 +110,7 @@ class BitpayRates:
         r = requests.get(cls.SINGLE_RATE + currency, headers=headers, timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.json()['data']['rate']
-        return int(ONE / Decimal(rate) * BTC)
+        return ONE / Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -205,7 +205,7 @@ class BlockchainRates:
         r = requests.get(cls.SINGLE_RATE.format(currency), timeout=REQUEST_TIMEOUT)
         r.raise_for_status()
         rate = r.text
-        return int(Decimal(rate) * BTC)
+        return Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -609,8 +609,7 @@ def currency_to_satoshi_local_cache(f):
 
     cached_rates = dict([(currency, CachedRate(None, start_time)) for currency in EXCHANGE_RATES.keys()])
 
-    @wraps(f)
-    def wrapper(amount, currency):
+    def get_rate(currency):
         now = time()
 
         cached_rate = cached_rates[currency]
@@ -619,7 +618,13 @@ def currency_to_satoshi_local_cache(f):
             cached_rate.satoshis = EXCHANGE_RATES[currency]()
             cached_rate.last_update = now
 
-        return int(cached_rate.satoshis * Decimal(amount))
+        return cached_rate.satoshis
+
+    @wraps(f)
+    def wrapper(amount, currency):
+        return int(get_rate(currency) * Decimal(amount))
+
+    wrapper.get_rate = get_rate
 
     return wrapper
 
@@ -672,7 +677,7 @@ def satoshi_to_currency_cached(num, currency):
     :rtype: ``str``
     """
     return '{:f}'.format(
-        Decimal(num / Decimal(currency_to_satoshi_cached(1, currency)))
+        Decimal(num / Decimal(currency_to_satoshi_local_cached.get_rate(currency)))
         .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN)
         .normalize()
     )
-- 
2.43.0


From 396311bdbff6f523faed43840f934eaa4692b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:15 +0000
Subject: [PATCH 11/39] fix: ask again when the clock was set back behind the
 cached rate or fee

---
 bit/network/fees.py  | 4 ++--
 bit/network/rates.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 5d50a0b..34fd205 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -48,7 +48,7 @@ def get_fee_local_cache(f):
             nonlocal cached_fee_fast
             nonlocal fast_last_update
 
-            if not cached_fee_fast or now - fast_last_update > DEFAULT_CACHE_TIME:
+            if not cached_fee_fast or not 0 <= now - fast_last_update <= DEFAULT_CACHE_TIME:
                 try:
                     request = requests.get(URL, timeout=REQUEST_TIMEOUT)
                     # If we have a non 2XX status code, raise HTTPError.
@@ -72,7 +72,7 @@ def get_fee_local_cache(f):
             nonlocal cached_fee_hour
             nonlocal hour_last_update
 
-            if not cached_fee_hour or now - hour_last_update > DEFAULT_CACHE_TIME:
+            if not cached_fee_hour or not 0 <= now - hour_last_update <= DEFAULT_CACHE_TIME:
                 try:
                     request = requests.get(URL, timeout=REQUEST_TIMEOUT)
                     # If we have a non 2XX status code, raise HTTPError.
diff --git a/bit/network/rates.py b/bit/network/rates.py
index 77b05fc..65f4811 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -614,7 +614,7 @@ def currency_to_satoshi_local_cache(f):
 
         cached_rate = cached_rates[currency]
 
-        if not cached_rate.satoshis or now - cached_rate.last_update > DEFAULT_CACHE_TIME:
+        if not cached_rate.satoshis or not 0 <= now - cached_rate.last_update <= DEFAULT_CACHE_TIME:
             cached_rate.satoshis = EXCHANGE_RATES[currency]()
             cached_rate.last_update = now
 
-- 
2.43.0


From 789d3e9d74603df2fca5603dad41a3f0006cf0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:19 +0000
Subject: [PATCH 12/39] fix: keep the wallet's unspents and history unless all
 of its addresses were fetched

---
 bit/wallet.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 03ee956..05e47dd 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -231,14 +231,15 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+            unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -247,9 +248,10 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = NetworkAPI.get_transactions(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -628,16 +630,17 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent_testnet(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent_testnet(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -646,9 +649,10 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = NetworkAPI.get_transactions_testnet(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1069,11 +1073,12 @@ class MultiSig:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize:
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
+        unspents = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wsh', add_np2wsh_vsize), NetworkAPI.get_unspent(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1082,9 +1087,10 @@ class MultiSig:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = NetworkAPI.get_transactions(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1392,16 +1398,17 @@ class MultiSigTestnet:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(
+        unspents = list(
             map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent_testnet(self.address))
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(
                     lambda u: u.set_type('np2wsh', add_np2wsh_vsize),
                     NetworkAPI.get_unspent_testnet(self.segwit_address),
                 )
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1410,9 +1417,10 @@ class MultiSigTestnet:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = NetworkAPI.get_transactions_testnet(self.address)
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
-- 
2.43.0


From ee7c932fd4fe4a5995971684b8b61e25781142e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:55 +0000
Subject: [PATCH 13/39] fix: do not change the caller's unspents when creating
 a transaction

---
 bit/transaction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..afedcbc 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -1,5 +1,6 @@
 import logging
 from collections import namedtuple
+from copy import copy
 from itertools import islice
 import math
 import re
@@ -424,7 +425,7 @@ def sanitize_tx_data(
     sum_outputs = sum(out[1] for out in outputs)
 
     # Use Branch-and-Bound for coin selection:
-    unspents[:], remaining = select_coins(
+    selected, remaining = select_coins(
         sum_outputs,
         fee,
         output_size,
@@ -435,7 +436,9 @@ def sanitize_tx_data(
     )
 
     if replace_by_fee:
-        for unspent in unspents:
+        # Opt in on copies, the caller keeps the originals:
+        selected = [copy(unspent) for unspent in selected]
+        for unspent in selected:
             unspent.opt_in_for_RBF()
 
     if remaining > 0:
@@ -450,7 +453,7 @@ def sanitize_tx_data(
 
     outputs.extend(messages)
 
-    return unspents, outputs
+    return selected, outputs
 
 
 def address_to_scriptpubkey(address):
-- 
2.43.0


From 887e03a8d6a268f5cce8a2fc2e0afef03377eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:10 +0000
Subject: [PATCH 14/39] fix: push messages longer than 75 bytes with
 OP_PUSHDATA1

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index afedcbc..cd63b81 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -485,7 +485,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From 517af4988f2664c17a67517b4d07e4d333b5aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:56 +0000
Subject: [PATCH 15/39] fix: search for an exact match without recursion,
 wallets can hold over 1000 unspents

---
 bit/transaction.py | 76 +++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index cd63b81..4e45a67 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -235,10 +235,9 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
     # COST_OF_OVERHEAD excludes the return address of output_size (last element).
     COST_OF_OVERHEAD = (8 + sum(output_size[:-1]) + 1) * fee
 
-    def branch_and_bound(d, selected_coins, effective_value, target, fee, sorted_unspents):  # pragma: no cover
+    def branch_and_bound(target, fee, sorted_unspents):  # pragma: no cover
 
         nonlocal COST_OF_OVERHEAD, BNB_TRIES
-        BNB_TRIES -= 1
         COST_PER_INPUT = 148 * fee  # Just typical estimate values
         COST_PER_OUTPUT = 34 * fee
 
@@ -251,58 +250,47 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
         # perfect match:
         # match_range += int(0.1 * fee * sum(u.vsize for u in selected_coins))
 
-        # Check for solution and cut criteria:
-        if effective_value > target_to_match + match_range:
-            return []
-        elif effective_value >= target_to_match:
-            return selected_coins
-        elif BNB_TRIES <= 0:
-            return []
-        elif d >= len(sorted_unspents):
-            return []
-        else:
-            # Randomly explore next branch:
-            binary_random = randint(0, 1)
-            if binary_random:
-                # Explore inclusion branch first, else omission branch:
-                effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
-
-                with_this = branch_and_bound(
-                    d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                )
-
-                if with_this != []:
-                    return with_this
-                else:
-                    without_this = branch_and_bound(
-                        d + 1, selected_coins, effective_value, target, fee, sorted_unspents
-                    )
+        # Depth-first search over (depth, selected coins, effective value). The
+        # branches to visit are kept in a list since a recursion as deep as
+        # there are unspents can exceed Python's recursion limit. The selected
+        # coins are a linked list so that branches share them.
+        branches = [(0, None, 0)]
+        while branches:
+            d, selected_coins, effective_value = branches.pop()
+            BNB_TRIES -= 1
+
+            # Check for solution and cut criteria:
+            if effective_value > target_to_match + match_range:
+                continue
+            elif effective_value >= target_to_match:
+                coins = []
+                while selected_coins:
+                    selected_coins, unspent = selected_coins
+                    coins.append(unspent)
+                return coins[::-1]
+            elif BNB_TRIES <= 0:
+                continue
+            elif d >= len(sorted_unspents):
+                continue
 
-                    return without_this
+            unspent = sorted_unspents[d]
+            with_this = (d + 1, (selected_coins, unspent), effective_value + unspent.amount - fee * unspent.vsize)
+            without_this = (d + 1, selected_coins, effective_value)
 
+            # Randomly explore inclusion branch or omission branch first:
+            if randint(0, 1):
+                branches += [without_this, with_this]
             else:
-                # As above but explore omission branch first:
-                without_this = branch_and_bound(d + 1, selected_coins, effective_value, target, fee, sorted_unspents)
-
-                if without_this != []:
-                    return without_this
-                else:
-                    effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+                branches += [with_this, without_this]
 
-                    with_this = branch_and_bound(
-                        d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                    )
-
-                    return with_this
+        return []
 
     sorted_unspents = sorted(unspents, key=lambda u: u.amount, reverse=True)
     selected_coins = []
 
     if not consolidate and not absolute_fee:
         # Trying to find a perfect match using Branch-and-Bound:
-        selected_coins = branch_and_bound(
-            d=0, selected_coins=[], effective_value=0, target=target, fee=fee, sorted_unspents=sorted_unspents
-        )
+        selected_coins = branch_and_bound(target=target, fee=fee, sorted_unspents=sorted_unspents)
         remaining = 0
 
     # Fallback: If no match, Single Random Draw with return address:
-- 
2.43.0


From 120474725ea8f218e6fa97684536eedc309dfd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:49 +0000
Subject: [PATCH 16/39] fix: allow messages in transactions prepared for
 offline signing

---
 bit/transaction.py | 3 +++
 bit/wallet.py      | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 4e45a67..c16f0c5 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -473,6 +473,9 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
+            # Messages of prepared transactions are stored as hex.
+            dest = hex_to_bytes(dest) if isinstance(dest, str) else dest
+
             script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
diff --git a/bit/wallet.py b/bit/wallet.py
index 05e47dd..bfaf762 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -457,7 +457,7 @@ class PrivateKey(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -858,7 +858,7 @@ class PrivateKeyTestnet(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -1231,7 +1231,7 @@ class MultiSig:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1561,7 +1561,7 @@ class MultiSigTestnet:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
-- 
2.43.0


From c174c7c6e99dc5be70a94ce6f621552d9e17006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 17/39] fix: keep partially signed multisig inputs intact when
 a co-signer signs twice

---
 bit/transaction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c16f0c5..8fe8b7d 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -645,9 +645,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -663,6 +660,11 @@ def sign_tx(private_key, tx, *, unspents):
 
             sigs[public_key] = signature
 
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
+
             witness = b''
             # Sort ingthe signatures according to the public-key list:
             for pub in private_key.public_keys:
-- 
2.43.0


From 148b2856ebde1f4bcf17f8a0398f9ff73c884a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 18/39] fix: write a witness field for every input when signing
 segwit inputs of an unsigned transaction

---
 bit/transaction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 8fe8b7d..e5fcef8 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -707,6 +707,11 @@ def sign_tx(private_key, tx, *, unspents):
         tx.TxIn[i].script_sig_len = int_to_varint(len(script_sig))
         tx.TxIn[i].witness = witness
 
+    # Once an input has a witness every input needs a witness field:
+    if any(i.witness for i in tx.TxIn):
+        for i in tx.TxIn:
+            i.witness = i.witness or b'\x00'
+
     return tx.to_hex()
 
 
-- 
2.43.0


From c2e05a43cda2e556754bec009f3267e6a133cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:56 +0000
Subject: [PATCH 19/39] fix: send change of a batch with segwit inputs to the
 legacy address when there is no segwit one

---
 bit/wallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index bfaf762..f37bed5 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -306,7 +306,7 @@ class PrivateKey(BaseKey):
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
         # If at least one input is from segwit the return address is for segwit
-        return_address = self.segwit_address if any([u.segwit for u in unspents]) else self.address
+        return_address = any([u.segwit for u in unspents]) and self.segwit_address or self.address
 
         unspents, outputs = sanitize_tx_data(
             unspents,
@@ -707,7 +707,7 @@ class PrivateKeyTestnet(BaseKey):
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
         # If at least one input is from segwit the return address is for segwit
-        return_address = self.segwit_address if any([u.segwit for u in unspents]) else self.address
+        return_address = any([u.segwit for u in unspents]) and self.segwit_address or self.address
 
         unspents, outputs = sanitize_tx_data(
             unspents,
@@ -1145,7 +1145,7 @@ class MultiSig:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
         # If at least one input is from segwit the return address is for segwit
-        return_address = self.segwit_address if any([u.segwit for u in unspents]) else self.address
+        return_address = any([u.segwit for u in unspents]) and self.segwit_address or self.address
 
         unspents, outputs = sanitize_tx_data(
             unspents,
@@ -1475,7 +1475,7 @@ class MultiSigTestnet:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
         # If at least one input is from segwit the return address is for segwit
-        return_address = self.segwit_address if any([u.segwit for u in unspents]) else self.address
+        return_address = any([u.segwit for u in unspents]) and self.segwit_address or self.address
 
         unspents, outputs = sanitize_tx_data(
             unspents,
-- 
2.43.0


From 1b29f5e1056e3e8adf0cc82b56ccc4a1c574e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:52 +0000
Subject: [PATCH 20/39] fix: sign prepared transactions of segwit addresses as
 segwit

---
 bit/transaction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index e5fcef8..9a67172 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -571,12 +571,16 @@ def sign_tx(private_key, tx, *, unspents):
     # input_dict contains those unspents that can be signed by private_key,
     # providing additional information for segwit-inputs (the amount to spend)
     input_dict = {}
+    segwit_address = private_key.segwit_address
+    segwit_script = bytes_to_hex(address_to_scriptpubkey(segwit_address)) if segwit_address else None
     try:
         for unspent in unspents:
             if not private_key.can_sign_unspent(unspent):
                 continue
             tx_input = hex_to_bytes(unspent.txid)[::-1] + unspent.txindex.to_bytes(4, byteorder='little')
             input_dict[tx_input] = unspent.to_dict()
+            # The script decides how to sign, the type is only set by the wallet:
+            input_dict[tx_input]['segwit'] = unspent.script == segwit_script
     except TypeError:
         raise TypeError(
             'Please provide as unspents at least all inputs to be signed with the function call in a list.'
-- 
2.43.0


From 5e5660438d148e06e376482a5ae20f701afe7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:59 +0000
Subject: [PATCH 21/39] fix: estimate the fee of prepared transactions with the
 input size of the address

---
 bit/wallet.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index f37bed5..7c23895 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -22,7 +22,7 @@ from bit.transaction import (
     deserialize,
     address_to_scriptpubkey,
 )
-from bit.constants import OP_0, OP_PUSH_20, OP_PUSH_32
+from bit.constants import OP_0, OP_HASH160, OP_PUSH_20, OP_PUSH_32
 
 from bit.utils import hex_to_bytes, bytes_to_hex, int_to_varint
 
@@ -442,8 +442,14 @@ class PrivateKey(BaseKey):
         :returns: JSON storing data required to create an offline transaction.
         :rtype: ``str``
         """
+        if not unspents:
+            unspent_type = 'p2pkh' if compressed else 'p2pkh-uncompressed'
+            if address_to_scriptpubkey(address)[:1] == OP_HASH160:
+                unspent_type = 'np2wkh'
+            unspents = [u.set_type(unspent_type) for u in NetworkAPI.get_unspent(address)]
+
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent(address),
+            unspents,
             outputs,
             fee or get_fee_cached(),
             leftover or address,
@@ -843,8 +849,14 @@ class PrivateKeyTestnet(BaseKey):
         :returns: JSON storing data required to create an offline transaction.
         :rtype: ``str``
         """
+        if not unspents:
+            unspent_type = 'p2pkh' if compressed else 'p2pkh-uncompressed'
+            if address_to_scriptpubkey(address)[:1] == OP_HASH160:
+                unspent_type = 'np2wkh'
+            unspents = [u.set_type(unspent_type) for u in NetworkAPI.get_unspent_testnet(address)]
+
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent_testnet(address),
+            unspents,
             outputs,
             fee or get_fee_cached(),
             leftover or address,
-- 
2.43.0


From b32017d80ebba7057bb78134e01e3054b4025b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:06 +0000
Subject: [PATCH 22/39] fix: report generated keys as compressed WIF, matching
 their address

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From 288063b3067d776d10691db16c61ed21a305cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:34 +0000
Subject: [PATCH 23/39] fix: an empty WIF is refused instead of creating a new
 key

Key(''), e.g. from a file that was never completely written, silently made
a fresh key.  A new key is only created if the argument is not supplied.
---
 bit/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 7c23895..b4db412 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -56,7 +56,7 @@ class BaseKey:
     """
 
     def __init__(self, wif=None):
-        if wif:
+        if wif is not None:
             if isinstance(wif, str):
                 private_key_bytes, compressed, version = wif_to_bytes(wif)
                 self._pk = ECPrivateKey(private_key_bytes)
-- 
2.43.0


From d49159203911b62007b247f93ac980588d8da67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:47 +0000
Subject: [PATCH 24/39] fix: a bech32 address with an invalid witness program
 raises ValueError

Such an address, e.g. one mistyped with an additional q before a final p
(which the checksum does not detect), raised TypeError.
---
 bit/transaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 9a67172..77f60d9 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -451,6 +451,8 @@ def address_to_scriptpubkey(address):
         version = b58decode_check(address)[:1]
     except ValueError:
         witver, data = segwit_decode(address)
+        if data is None:
+            raise ValueError('"{}" is not a valid segwit address.'.format(address)) from None
         return segwit_scriptpubkey(witver, data)
 
     if version == MAIN_PUBKEY_HASH or version == TEST_PUBKEY_HASH:
-- 
2.43.0


From 5d32c22f1c84e3a1685c8f5bc6a3d76c6a309a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:02 +0000
Subject: [PATCH 25/39] fix: order a set of public keys by the keys instead of
 their notation

Co-signers of one contract got different addresses if they wrote the hex of
the keys in different case, and a set of bytes and hex raised TypeError.
---
 bit/wallet.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index b4db412..91ac49f 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -991,9 +991,8 @@ class MultiSig:
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
-        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        self.public_keys = sorted(keys) if type(public_keys) == set else keys
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
@@ -1316,9 +1315,8 @@ class MultiSigTestnet:
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
-        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        self.public_keys = sorted(keys) if type(public_keys) == set else keys
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
-- 
2.43.0


From 671cf8223839eeb8def67ebf3872fd87bdeb02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:18 +0000
Subject: [PATCH 26/39] fix: refuse transactions that are cut off or followed
 by other data

Deserialising, and thereby signing, an incompletely transferred transaction
silently produced another one.
---
 bit/transaction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 77f60d9..73f81e1 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -357,7 +357,10 @@ def deserialize(tx):
                 witness += w
             inputs[i].witness = witness
 
-    locktime, _ = read_bytes(tx, 4)
+    locktime, tx = read_bytes(tx, 4)
+
+    if len(locktime) != 4 or tx:
+        raise ValueError('The transaction is cut off or followed by other data.')
 
     txobj = TxObj(version, inputs, outputs, locktime)
 
-- 
2.43.0


From 2ffca7ea575cc998c03a2c67efffa05a78d627e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 27/39] fix: refuse transactions with an odd number of hex
 digits

They were padded in front, so that a transaction cut off in the middle of a
byte could be read as an entirely different one.
---
 bit/transaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 73f81e1..81a3a8a 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -322,7 +322,8 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
 
 def deserialize(tx):
     if isinstance(tx, str) and re.match('^[0-9a-fA-F]*$', tx):
-        return deserialize(hex_to_bytes(tx))
+        # An odd number of digits is refused here instead of being padded:
+        return deserialize(bytes.fromhex(tx))
 
     segwit_tx = TxObj.is_segwit(tx)
 
-- 
2.43.0


From 93eae2b2ce18af2fe6a441f5e0d77187a2da2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:47 +0000
Subject: [PATCH 28/39] fix: accept any character in the RPC user and password

Credentials were put into the node's URL as they are. A password with /, # or ?
made the URL unreadable and one with % was altered, so a reachable node could
not be used.
---
 bit/network/services.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index e952cb0..5e5d684 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,6 +1,7 @@
 import requests
 import json
 import logging
+from urllib.parse import quote
 
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
@@ -20,7 +21,12 @@ class RPCHost:
     def __init__(self, user, password, host, port, use_https, path):
         self._session = requests.Session()
         self._url = "http{s}://{user}:{password}@{host}:{port}/{path}".format(
-            s="s" if use_https else "", user=user, password=password, host=host, port=port, path=path
+            s="s" if use_https else "",
+            user=quote(str(user), safe=""),
+            password=quote(str(password), safe=""),
+            host=host,
+            port=port,
+            path=path,
         )
         self._headers = {"content-type": "application/json"}
         self._session.verify = use_https
-- 
2.43.0


From eb0c73055b87dad0a071002fd1f6b55442a9104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 29/39] fix: use the CA bundle given for a node also when one
 is set in the environment

requests prefers REQUESTS_CA_BUNDLE and CURL_CA_BUNDLE over the verify setting of
a session, so the bundle given to connect_to_node was ignored.
---
 bit/network/services.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 5e5d684..15ae850 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -96,7 +96,12 @@ class RPCMethod:
         payload = json.dumps({"method": self._rpc_method, "params": list(args), "jsonrpc": "2.0"})
         try:
             response = self._host._session.post(
-                self._host._url, headers=self._host._headers, data=payload, timeout=DEFAULT_TIMEOUT
+                self._host._url,
+                headers=self._host._headers,
+                data=payload,
+                timeout=DEFAULT_TIMEOUT,
+                # Without this a CA bundle set in the environment takes precedence:
+                verify=self._host._session.verify,
             )
         except requests.exceptions.ConnectionError:
             raise ConnectionError
-- 
2.43.0


From 52ab7c0f80a0483dcbe1608427d51acf6fa54140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:42 +0000
Subject: [PATCH 30/39] fix: refuse base58 addresses that do not encode a
 160-bit hash

Such an address was turned into an output script whose push had another
length than its data, which nobody can spend.
---
 bit/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..4ac00f3 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -45,7 +45,10 @@ def address_to_public_key_hash(address):
 def get_version(address):
     version, _ = bech32_decode(address)
     if version is None:
-        version = b58decode_check(address)[:1]
+        decoded = b58decode_check(address)
+        if len(decoded) != 21:
+            raise ValueError('"{}" does not encode a 160-bit hash.'.format(address))
+        version = decoded[:1]
     if version in (MAIN_PUBKEY_HASH, MAIN_SCRIPT_HASH) or version in BECH32_MAIN_VERSION_SET:
         return 'main'
     elif version in (TEST_PUBKEY_HASH, TEST_SCRIPT_HASH) or version in BECH32_TEST_VERSION_SET:
-- 
2.43.0


From 3c90a3f9b3e2f1f2df4f54ba2f05a308e7a8d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:42 +0000
Subject: [PATCH 31/39] fix: refuse WIF keys that do not hold 32 bytes

A shorter one was silently padded to another key.
---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 4ac00f3..7727dd3 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -93,6 +93,9 @@ def wif_to_bytes(wif):
     else:
         private_key, compressed = private_key[1:], False
 
+    if len(private_key) != 32:
+        raise ValueError('A private key is 32 bytes, not {}.'.format(len(private_key)))
+
     return private_key, compressed, version
 
 
-- 
2.43.0


From 7e43e918afbd9b2e92baf30ab5f13e6b467f1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:41 +0000
Subject: [PATCH 32/39] fix: refuse multisig contracts that require less than
 one signature

Their redeem script cannot be satisfied, coins sent there were lost.
---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 7727dd3..f2d49d5 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -149,6 +149,9 @@ def multisig_to_redeemscript(public_keys, m):
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
 
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
+
     redeemscript = int_to_unknown_bytes(m + 80)
 
     for key in public_keys:
-- 
2.43.0


From 770c26765b4d56b2997ca555b95d45dcfa35c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:21 +0000
Subject: [PATCH 33/39] fix: count a public key listed repeatedly in a multisig
 contract repeatedly

Its signature was placed once per listing, too often or with a wrong number
of witness items, so that coins of such a contract could not be spent.
---
 bit/transaction.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 81a3a8a..ca0dbf4 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -665,15 +665,20 @@ def sign_tx(private_key, tx, *, unspents):
                             # If we already found a valid signature for pubkey
                             # we just overwrite it and don't care.
                             sigs[pub] = sig
-                if len(sigs) >= private_key.m:
+                if sum(pub in sigs for pub in private_key.public_keys) >= private_key.m:
                     raise ValueError('Transaction is already signed with sufficiently needed signatures.')
 
             sigs[public_key] = signature
 
+            # A public key that is listed repeatedly counts repeatedly:
+            signed = min(private_key.m, sum(pub in sigs for pub in private_key.public_keys))
+            if not input_script_field[i]:
+                witness_count = signed + 2
+
             if input_script_field[i]:
                 # Bitcoin Core convention: Every missing signature is denoted
                 # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sigs))
+                script_blob += b'\x00' * (private_key.m - signed)
 
             witness = b''
             # Sort ingthe signatures according to the public-key list:
@@ -682,6 +687,9 @@ def sign_tx(private_key, tx, *, unspents):
                     sig = sigs[pub]
                     length = int_to_varint(len(sig)) if segwit_input else script_push(len(sig))
                     witness += length + sig
+                    signed -= 1
+                    if not signed:
+                        break
 
             script_sig = b'\x22' + private_key.segwit_scriptcode
 
-- 
2.43.0


From e8db485a0647289abff0eeba0aac19218f060f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 34/39] fix: treat a plain-text reply that is no transaction or
 height as a failure of the service

---
 bit/network/services.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 15ae850..fb2b424 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -17,6 +17,23 @@ def set_service_timeout(seconds):
     DEFAULT_TIMEOUT = seconds
 
 
+def parse_tx_hex(text):
+    # A service in trouble may answer 200 with something else, e.g. a web page.
+    try:
+        if bytes.fromhex(text):
+            return text
+    except ValueError:
+        pass
+    raise ConnectionError('The reply is not a transaction.')
+
+
+def parse_height(text):
+    try:
+        return int(text)
+    except ValueError:
+        raise ConnectionError('The reply is not a block height.')
+
+
 class RPCHost:
     def __init__(self, user, password, host, port, use_https, path):
         self._session = requests.Session()
@@ -460,7 +477,7 @@ class BlockstreamAPI:
             return None
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-        return r.text
+        return parse_tx_hex(r.text)
 
     @classmethod
     def get_transaction_by_id_testnet(cls, txid):
@@ -469,7 +486,7 @@ class BlockstreamAPI:
             return None
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-        return r.text
+        return parse_tx_hex(r.text)
 
     @classmethod
     def get_unspent(cls, address):
@@ -477,7 +494,7 @@ class BlockstreamAPI:
         r_block = requests.get(cls.MAIN_ENDPOINT + 'blocks/tip/height', timeout=DEFAULT_TIMEOUT)
         if r_block.status_code != 200:  # pragma: no cover
             raise ConnectionError
-        block_height = int(r_block.text)
+        block_height = parse_height(r_block.text)
 
         r = requests.get(cls.MAIN_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
@@ -509,7 +526,7 @@ class BlockstreamAPI:
         r_block = requests.get(cls.TEST_ENDPOINT + 'blocks/tip/height', timeout=DEFAULT_TIMEOUT)
         if r_block.status_code != 200:  # pragma: no cover
             raise ConnectionError
-        block_height = int(r_block.text)
+        block_height = parse_height(r_block.text)
 
         r = requests.get(cls.TEST_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
@@ -752,7 +769,7 @@ class BlockchainAPI:
             return None
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-        return r.text
+        return parse_tx_hex(r.text)
 
     @classmethod
     def get_unspent(cls, address):
-- 
2.43.0


From 379aa9d4d0c537d8d7a28dcb9997bd6eeea8ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:26 +0000
Subject: [PATCH 35/39] fix: treat a reply without the expected structure as a
 failure of the service

---
 bit/network/fees.py     | 4 ++--
 bit/network/rates.py    | 3 ++-
 bit/network/services.py | 4 ++++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 34fd205..7654e5d 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -56,7 +56,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_fast = request.json()['fastestFee']
                     fast_last_update = now
-                except RequestException:  # pragma: no cover
+                except (RequestException, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_fast is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (fast) of {}'.format(DEFAULT_FEE_FAST)
@@ -80,7 +80,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_hour = request.json()['hourFee']
                     hour_last_update = now
-                except RequestException:  # pragma: no cover
+                except (RequestException, KeyError, TypeError):  # pragma: no cover
                     if cached_fee_hour is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (hour) of {}'.format(DEFAULT_FEE_HOUR)
diff --git a/bit/network/rates.py b/bit/network/rates.py
index 65f4811..0bc0704 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -297,7 +297,8 @@ class RatesAPI:
     number of satoshi.
     """
 
-    IGNORED_ERRORS = (requests.exceptions.RequestException, InvalidOperation)
+    # KeyError and TypeError: a reply without the expected structure.
+    IGNORED_ERRORS = (requests.exceptions.RequestException, InvalidOperation, KeyError, TypeError)
 
     USD_RATES = [BitpayRates.usd_to_satoshi, BlockchainRates.usd_to_satoshi]
     EUR_RATES = [BitpayRates.eur_to_satoshi, BlockchainRates.eur_to_satoshi]
diff --git a/bit/network/services.py b/bit/network/services.py
index fb2b424..1a77370 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1012,6 +1012,10 @@ class NetworkAPI:
         requests.exceptions.ReadTimeout,
         requests.exceptions.RequestException,
         ExcessiveAddress,
+        # A reply without the expected structure:
+        KeyError,
+        IndexError,
+        TypeError,
     )
 
     GET_BALANCE_MAIN = [
-- 
2.43.0


From 6c521f2ffebd91f6dc75910e5b31551d858a4e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 36/39] fix: refuse listings whose pages shifted while they
 were read

Blockchair and blockchain.info are paged by offset. A transaction that arrives
between two pages made entries appear twice or not at all.
---
 bit/network/services.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/bit/network/services.py b/bit/network/services.py
index 1a77370..3e7ad9e 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -34,6 +34,13 @@ def parse_height(text):
         raise ConnectionError('The reply is not a block height.')
 
 
+def check_pages_fit(counts, entries):
+    # Pages are requested one after another by their offset. If the history of
+    # the address changes meanwhile, entries shift: some are missing or listed twice.
+    if len(set(counts)) > 1 or len(set(entries)) != len(entries):
+        raise ConnectionError('The listing changed while it was read.')
+
+
 class RPCHost:
     def __init__(self, user, password, host, port, use_https, path):
         self._session = requests.Session()
@@ -172,9 +179,11 @@ class BlockchairAPI:
         response = r.json()
         response = response['data'][address]
         total_txs = response['address']['transaction_count']
+        counts = []
 
         while total_txs > 0:
             transactions.extend(tx for tx in response['transactions'])
+            counts.append(response['address']['transaction_count'])
 
             total_txs -= txs_per_page
             offset += txs_per_page
@@ -184,6 +193,8 @@ class BlockchairAPI:
                 raise ConnectionError
             response = r.json()['data'][address]
 
+        check_pages_fit(counts, transactions)
+
         return transactions
 
     @classmethod
@@ -203,9 +214,11 @@ class BlockchairAPI:
         response = r.json()
         response = response['data'][address]
         total_txs = response['address']['transaction_count']
+        counts = []
 
         while total_txs > 0:
             transactions.extend(tx for tx in response['transactions'])
+            counts.append(response['address']['transaction_count'])
 
             total_txs -= txs_per_page
             offset += txs_per_page
@@ -215,6 +228,8 @@ class BlockchairAPI:
                 raise ConnectionError
             response = r.json()['data'][address]
 
+        check_pages_fit(counts, transactions)
+
         return transactions
 
     @classmethod
@@ -263,6 +278,7 @@ class BlockchairAPI:
         response = response['data'][address]
         script_pubkey = response['address']['script_hex']
         total_unspents = response['address']['unspent_output_count']
+        counts = []
 
         while total_unspents > 0:
             unspents.extend(
@@ -275,6 +291,7 @@ class BlockchairAPI:
                 )
                 for utxo in response['utxo']
             )
+            counts.append(response['address']['unspent_output_count'])
 
             total_unspents -= unspents_per_page
             offset += unspents_per_page
@@ -284,6 +301,8 @@ class BlockchairAPI:
                 raise ConnectionError
             response = r.json()['data'][address]
 
+        check_pages_fit(counts, [(unspent.txid, unspent.txindex) for unspent in unspents])
+
         return unspents
 
     @classmethod
@@ -306,6 +325,7 @@ class BlockchairAPI:
         response = response['data'][address]
         script_pubkey = response['address']['script_hex']
         total_unspents = response['address']['unspent_output_count']
+        counts = []
 
         while total_unspents > 0:
             unspents.extend(
@@ -318,6 +338,7 @@ class BlockchairAPI:
                 )
                 for utxo in response['utxo']
             )
+            counts.append(response['address']['unspent_output_count'])
 
             total_unspents -= unspents_per_page
             offset += unspents_per_page
@@ -327,6 +348,8 @@ class BlockchairAPI:
                 raise ConnectionError
             response = r.json()['data'][address]
 
+        check_pages_fit(counts, [(unspent.txid, unspent.txindex) for unspent in unspents])
+
         return unspents
 
     @classmethod
@@ -748,9 +771,11 @@ class BlockchainAPI:
             raise ConnectionError
         response = r.json()
         total_txs = response['n_tx']
+        counts = []
 
         while total_txs > 0:
             transactions.extend(tx['hash'] for tx in response['txs'])
+            counts.append(response['n_tx'])
 
             total_txs -= txs_per_page
             offset += txs_per_page
@@ -760,6 +785,8 @@ class BlockchainAPI:
                 raise ConnectionError
             response = r.json()
 
+        check_pages_fit(counts, transactions)
+
         return transactions
 
     @classmethod
-- 
2.43.0


From 2f7eb1b0993e5ed99376f32cb554b17f23951f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 37/39] fix: list a transaction once when it is confirmed
 during the listing

---
 bit/network/services.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 3e7ad9e..c651fcf 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -443,7 +443,9 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
-        transactions.extend(unconfirmed)
+        # Some may have been confirmed since they were listed
+        confirmed = set(transactions)
+        transactions.extend(txid for txid in unconfirmed if txid not in confirmed)
 
         return transactions
 
@@ -489,7 +491,9 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
-        transactions.extend(unconfirmed)
+        # Some may have been confirmed since they were listed
+        confirmed = set(transactions)
+        transactions.extend(txid for txid in unconfirmed if txid not in confirmed)
 
         return transactions
 
-- 
2.43.0


From 266e01a39fcccf1fce5c421ae75d02e67a05cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 38/39] fix: no negative confirmations when blocks are found
 during the listing

---
 bit/network/services.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index c651fcf..7e0c104 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -284,7 +284,8 @@ class BlockchairAPI:
             unspents.extend(
                 Unspent(
                     utxo['value'],
-                    block_height - utxo['block_id'] + 1 if utxo['block_id'] != -1 else 0,
+                    # Blocks may have been found since the height was read
+                    max(block_height - utxo['block_id'] + 1, 0) if utxo['block_id'] != -1 else 0,
                     script_pubkey,
                     utxo['transaction_hash'],
                     utxo['index'],
@@ -331,7 +332,8 @@ class BlockchairAPI:
             unspents.extend(
                 Unspent(
                     utxo['value'],
-                    block_height - utxo['block_id'] + 1 if utxo['block_id'] != -1 else 0,
+                    # Blocks may have been found since the height was read
+                    max(block_height - utxo['block_id'] + 1, 0) if utxo['block_id'] != -1 else 0,
                     script_pubkey,
                     utxo['transaction_hash'],
                     utxo['index'],
@@ -537,7 +539,8 @@ class BlockstreamAPI:
             [
                 Unspent(
                     tx["value"],
-                    block_height - tx["status"]["block_height"] + 1 if tx["status"]["confirmed"] else 0,
+                    # Blocks may have been found since the height was read
+                    max(block_height - tx["status"]["block_height"] + 1, 0) if tx["status"]["confirmed"] else 0,
                     script_pubkey,
                     tx["txid"],
                     tx["vout"],
@@ -568,7 +571,8 @@ class BlockstreamAPI:
         return [
             Unspent(
                 tx["value"],
-                block_height - tx["status"]["block_height"] + 1 if tx["status"]["confirmed"] else 0,
+                # Blocks may have been found since the height was read
+                max(block_height - tx["status"]["block_height"] + 1, 0) if tx["status"]["confirmed"] else 0,
                 script_pubkey,
                 tx["txid"],
                 tx["vout"],
-- 
2.43.0


From b1bbfb39600298b92b9c383ad650c4c6fcc5c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:19 +0000
Subject: [PATCH 39/39] fix: an interrupted vanity generation stops its workers

---
 bit/keygen.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index 1aaf939..8e7f0f1 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -43,23 +43,29 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
     for _ in range(cores):
         workers.append(Process(target=generate_key_address_pairs, args=(prefix, counter, match, queue)))
 
-    for worker in workers:
-        worker.start()
+    try:
+        for worker in workers:
+            worker.start()
+
+        keys_generated = 0
+        while True:
+            time.sleep(1)
+            current = counter.value
+            if current == keys_generated:
+                if current == 0:
+                    continue
+                break
+            keys_generated = current
+            s = 'Keys generated: {}\r'.format(keys_generated)
+            sys.stdout.write(s)
+            sys.stdout.flush()
+
+        private_key, address = queue.get()
+    except BaseException:
+        # The workers would otherwise search on, and keep an interrupted process from ending.
+        match.set()
+        raise
 
-    keys_generated = 0
-    while True:
-        time.sleep(1)
-        current = counter.value
-        if current == keys_generated:
-            if current == 0:
-                continue
-            break
-        keys_generated = current
-        s = 'Keys generated: {}\r'.format(keys_generated)
-        sys.stdout.write(s)
-        sys.stdout.flush()
-
-    private_key, address = queue.get()
     print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
-- 
2.43.0

