"""Run counts per tier and what each check's evidence says about itself."""

COMPONENTS = {
    'real': ['all of /repo/bit (loaded fresh for every run)', 'requests', 'urllib3 above HTTPConnectionPool._make_request',
             'coincurve / libsecp256k1', 'CPython decimal, json'],
    'stub': ['TCP/TLS/DNS (the seam is HTTPConnectionPool._make_request)', 'block explorers, rate and fee services, Bitcoin Core nodes '
             '(models over one reference ledger)', 'clock, sleep, os.urandom, random (seeded)', 'threads and processes (simulated scheduler)'],
    'assumptions': ['remote services answer in the formats modelled in sim/net.py', 'libsecp256k1 verifies ECDSA correctly'],
}

PLAN = {
    'C01': {'quick': 20000, 'thorough': 400000, 'chunk': 250,
            'rule': 'Each run draws 1-4 read operations on main/test with a drawn ledger, per-service lag, latency and fault plan.'},
    'C02': {'quick': 8000, 'thorough': 150000, 'chunk': 150,
            'rule': 'Each run draws a listing whose size sits at a page or cap boundary of one target service, and fails services, '
                    'including the target in the middle of its pages.'},
    'C03': {'quick': 16000, 'thorough': 250000, 'chunk': 250,
            'rule': 'Each run broadcasts 1-3 drawn transactions (valid, already known, conflicting, malformed) up to twice each under a '
                    'drawn per-service plan of failures before, during and after acceptance (lost acknowledgements) and rejections.'},
    'C04': {'quick': 12000, 'thorough': 150000, 'chunk': 150,
            'rule': 'Each run interleaves queries, refreshes, payments and cross-network payments of a mainnet and a testnet wallet while '
                    'services fail at drawn requests.'},
    'C05': {'quick': 16000, 'thorough': 200000, 'chunk': 200,
            'rule': 'Each run draws a history of 4-10 connects, reads, broadcasts, refreshes and payments over both networks with node '
                    'faults (unreachable, bad credentials, error replies, stalls, truncation) and a moving ledger.'},
    'C06': {'quick': 13000, 'thorough': 250000, 'chunk': 250,
            'rule': 'Each run draws a history of node and explorer reads, fiat conversions, payments, pushes and refreshes (one thread, or '
                    '2-3 threads preempted at drawn source lines) and converts drawn amounts between units after every step.'},
    'C07': {'quick': 22000, 'thorough': 500000, 'chunk': 400,
            'rule': 'Each run draws 4-17 steps of conversions, passing time, wall-clock jumps both ways, cache-time changes, process '
                    'restarts and changes of the fault plan of both rate services; every quote is unique.'},
    'C08': {'quick': 24000, 'thorough': 500000, 'chunk': 400,
            'rule': 'Each run draws 4-17 steps of fee lookups of both speeds, passing time, wall-clock jumps both ways, cache-time '
                    'changes, process restarts and fee-service faults; every quote is unique.'},
    'C09': {'quick': 6000, 'thorough': 120000, 'chunk': 120,
            'rule': 'Each run draws a wallet (key or multisig, with one or two addresses), a moving ledger and a history of refreshes and '
                    'payments during which services fail or the network is lost from a drawn request on.'},
    'C10': {'quick': 12000, 'thorough': 200000, 'chunk': 150,
            'rule': 'Each run draws a single-key wallet and a chain of 1-4 payments (created or sent, coins fetched or supplied) with drawn '
                    'coins, recipients, units, fees, messages, change addresses and replace-by-fee under service faults and lost replies.'},
    'C11': {'quick': 7000, 'thorough': 120000, 'chunk': 100,
            'rule': 'Each run draws 1-3 coin sets (1-2100 coins, near-exact subset sums), targets, fees and adversarial random streams.'},
    'C16': {'quick': 12000, 'thorough': 200000, 'chunk': 200,
            'rule': 'Each run draws operations of every kind with services (or the node) that never accept, never answer or stop in '
                    'mid-answer, healthy ones that answer just below the timeout, and changes of the timeout in between.'},
    'C12': {'quick': 8000, 'thorough': 150000, 'chunk': 120,
            'rule': 'Each run draws an m-of-n multisig wallet (or several), a payment, and a signing ceremony: the order of signers, lost, '
                    'duplicated and stale deliveries of the partial transaction, signers asked twice, strangers signing.'},
    'C13': {'quick': 12000, 'thorough': 200000, 'chunk': 150,
            'rule': 'Each run draws a batch of wallets of mixed kinds, their coins and a joint transaction, and delivers it to the signers '
                    'in a drawn order, with duplicates and stale copies.'},
    'C14': {'quick': 16000, 'thorough': 250000, 'chunk': 200,
            'rule': 'Each run prepares a payment on an online machine under service faults, carries the JSON to an offline machine (whole, '
                    'cut, or with flipped bytes) and signs it there with no network.'},
    'C15': {'quick': 18000, 'thorough': 250000, 'chunk': 200,
            'rule': 'Each run draws a prefix, worker count and CPU count, schedules the simulated worker processes and the polling parent '
                    '(preempted at drawn source lines) with stalled workers and late queue deliveries, or draws an invalid or no prefix.'},
    'C17': {'quick': 3000, 'thorough': 90000, 'chunk': 60,
            'rule': 'Each run draws 2-4 threads, each with its own wallet and script of refreshes, conversions, fee lookups and payments, '
                    'preempted at drawn source lines while services fail; each result is judged against that thread\'s own wallet and quotes.'},
    'C18': {'quick': 16000, 'thorough': 250000, 'chunk': 200,
            'rule': 'Each run draws 2-6 fully specified operations on a drawn wallet, each under a network that is up, partitioned, stalling or '
                    'fails, and compares the results across network states.'},
    'C19': {'quick': 16000, 'thorough': 250000, 'chunk': 200,
            'rule': 'Each run draws a history of creating, preparing, signing and sending with shared argument objects, some calls failing '
                    '(bad outputs, too little funds, services down), and compares arguments and wallet before and after each call.'},
    'C20': {'quick': 22000, 'thorough': 300000, 'chunk': 250,
            'rule': 'Each run draws 1-4 payments and key imports in which one address or WIF is damaged in one of 16 ways (or intact), on '
                    'wallets of drawn kinds under service faults; an independent decoder says whether the text still is valid.'},
    'C21': {'quick': 13000, 'thorough': 250000, 'chunk': 200,
            'rule': 'Each run exports drawn keys (including edge values) to a disk that tears, zeroes or loses writes, restarts, restores and '
                    'spends; or builds one contract on the machine of every co-signer with drawn order and notation of the public keys.'},
    'C22': {'quick': 24000, 'thorough': 400000, 'chunk': 250,
            'rule': 'Each run reads 1-4 drawn well-formed transactions of any form and then a damaged copy (cut, extended, bytes lost, not hex), '
                    'also for signing.'},
    'C23': {'quick': 13000, 'thorough': 250000, 'chunk': 200,
            'rule': 'Each run creates keys in every way on a machine and its clone (same clock and Python random state, system randomness '
                    'that differs fully or in one byte of 32), sequentially with failing and unusable randomness or in preempted threads.'},
    'C25': {'quick': 10000, 'thorough': 250000, 'chunk': 150,
            'rule': 'Each run draws 3-8 reads, multi-page listings, broadcasts, refreshes, payments, rate and fee lookups and node connections '
                    'while drawn services or the node are impersonated (self-signed, expired, wrong host, certificate of another authority).'},
    'C26': {'quick': 13000, 'thorough': 300000, 'chunk': 200,
            'rule': 'Each run draws 3-8 payments, signatures, imports, refreshes and failing calls, with service faults, redirecting nodes and stuck '
                    'system randomness, and scans every request, result, log record, printed text, written file, representation and error.'},
    'C27': {'quick': 12000, 'thorough': 200000, 'chunk': 150,
            'rule': 'Each run creates 1-3 keys or m-of-n contracts (1-20 public keys in drawn notations; a third of them impossible), funds their '
                    'addresses and lets drawn co-signers find and spend the coins under service faults and restarts.'},
    'C28': {'quick': 7000, 'thorough': 200000, 'chunk': 150,
            'rule': 'Each run draws a history of 1-10 operations of a few kinds under service faults, with settings, node connections and passing time, and '
                    'then 3-8 operations that are carried out twice over the same world: in that process and in a newly started one.'},
    'C29': {'quick': 6000, 'thorough': 120000, 'chunk': 100,
            'rule': 'Each run draws a listing around the page sizes of one service and lets transactions arrive, coins be spent (also back to the '
                    'address) and blocks be found between its requests, one to three times in one process, with other services failing.'},
    'C30': {'quick': 6000, 'thorough': 150000, 'chunk': 120,
            'rule': 'Each run draws a history of operations, most of which are interrupted (KeyboardInterrupt, SystemExit) before a request, after the peer '
                    'carried it out or in the middle of the reply, then calls that must work and a comparison with a newly started process.'},
    'C24': {'quick': 20000, 'thorough': 300000, 'chunk': 300,
            'rule': 'Each run signs drawn data and hands signature, data and key to a verifier on a restarted machine, one of them tampered with.'},
}
