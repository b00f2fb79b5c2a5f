import json,os,glob
V='/verif'
rows=[
("C01","`round-trip`, `injective`, `constructor`: encode/decode of every key and value of a grid; all pairs for injectivity; an encoding shares no memory with the next one","lengths around varint boundaries (0..300, 16383..), float bit patterns (NaN, -0, subnormals), label bytes, integer boundaries"),
("C02","`histories`, `expiry-histories`, `exact-times`, `long`, `alike-keys` (hours of virtual time), `far` (TTLs up to 2^64−1): reference map with expiry","all sequences of insert/overwrite/delete/refresh/wait, depth 5 → 6; TTL 0, short, long, int32/64 boundaries; observation 1 s before, at and after each expiry"),
("C03","schedules of insert, delete, search, stream, refresh, expiry on one key and on different keys; final content = some sequential order, and the content 40 s later; `all-*`: generated, every pair (and triples) of ten operations over three prepared states","all schedules, 2 deviations (two threads), 1 (three threads) → one more each"),
("C04","`scores-and-limits`, `filters`, `arrival-orders`, `fine-scores` (scores that differ by 1e-4), `large` (thousands of data), `timeouts`, `special-values`: independent scorer and sorter","all subsets of a pool, all score functions and unknown names, limits 0..n+1, filter pairs, 720 orders, NaN/∞/-0/empty vectors"),
("C05","`placements`, `patience` (answers just before the limit), `fine-scores`, `alike-keys` (keys of any length that differ in one field), `many-results`, `more-peers-than-asked`, `schedules-*` of merging","all placements on ≤ 4 sites, 1–2 queries, up to 10 peers; schedules 2 → 3 deviations"),
("C06","`context`, `groups`, `result-limit`, `limited-groups`, `labels` (groups told apart by the whole label), `peers`: independent aggregation over the union of the sites","all context/group/limit/direction combinations; 481 placements on three sites, replicas included"),
("C07","`peer-behaviours`, `tiny-`/`huge-timeouts`, `nodes`, `schedules-late/partial`","all combinations of prompt, late, silent, half-way, flooding and failing peers × timeouts × queries; 1440 node cases; schedules 1 → 2"),
("C08","`pairs`, `hits`, `several-queries`: each answer against the reference at the time the cache allows","all ordered pairs differing in one key or configuration field × before/after expiry × data change; histories of hits"),
("C09","`answers`, `again`, `nodes`: scripted and real peers; who got which copy, acknowledgement","all peer conditions (accept, full, draining, down) ≤ 3 → 5 peers × replication counts × insert configurations"),
("C10","`patterns`, `rounds` (random draws enumerated), `schedules-*`, `pauses-*`","≤ 2 peers, all accept/refuse patterns, all draws, empty labels and groups, targets that are switched off; schedules of transfer against update/renewal/insert 2 deviations; pauses (process stands still 1 s … 20 min at each step)"),
("C11","`patterns`, `many`, `no-peers`, `schedules-*` (insert, refresh, flapping peer against close)","all accept/refuse/down patterns over time, sizes around transfer limits (≤ 2500); schedules 1–2 → 2–3"),
("C12","`refreshes`, `background`, `mixed-lengths`, `extremes`, schedules of insert against refresh","all histories of insert/delete/expiry/refresh to the depth bound; exact average, distance and histogram"),
("C13","`histories`, `schedules-*` (search against first refresh, refresh, emptying, close, mixed dimensions)","all histories depth 4 → 5, 12 operations, label and group filters; schedules 2 → 3"),
("C14","`histories` against a registry, `versions` (creations with every version in turn), `names` (names that differ in case, escapes, prefixes), `schedules` of creations, updates, deletions, look-ups, saves","depth 4 → 5 over two names and three versions; schedules 1–2 → 2–3"),
("C15","`crash-*` (every schedule abandoned before every step, restart on the left-over files), `restart`, `histories`, `sizes`, stale saves","crash before every statement × 1 deviation; names/lists around 4 KB, 64 KB buffers"),
("C16","`conditions`, `remote`, `timeline` (per-minute reference), `schedules` of maintenance against insert, creation, information, second maintenance, processors","all peer conditions; schedules 1–2 → 2–3"),
("C17","`records` (reference: newest wins), `topologies`, `four-nodes`, `services`, `callers`, `half-named` (one announced name leads nowhere), `many-datasets`, schedules of arrivals","depth 4 → 5; all join graphs of three (four) nodes over virtual minutes; schedules 1–2"),
("C18","`three-nodes`, `four-nodes`, `larger`, `slow`, `again` (the same query twice, then another), schedules (cycle, triangle, two/three arrivals, two searches)","all digraphs of 3 (4) nodes × entry × queries × data; delays 0/3/12 s; schedules 1 → 2"),
("C19","`sizes`, `shapes`, `several`, `interrupted`, schedules of a stream against insert, overwrite, delete, refresh","sizes around the buffers and up to 12000 (70000), all receiver paces, cancellation after each datum; schedules 1 → 2"),
("C20","`readiness`, `closing`, `fresh`, `uneven`, schedules of insert/refresh/maintenance/save/ready against close","all orders of ready/sync/close; 1 → 2 deviations"),
("C21","`histories-one/two-peers`, `come-and-go`, `load`, schedules of two and three users","depth 5 → 6 of get/put/break/close/expire; schedules 2 → 3"),
("C22","`names`, `pairs` (with neighbouring names), `service`: recording file system, sentinels","all names ≤ 3 → 4 over `a . / \\ % ~ NUL` etc.; all pairs"),
("C23","`insert`, `search`, `create`, `membership`, `other`, `answers` (what peers answer), `two-requests`","full product of missing/empty/extreme fields per call; all ordered pairs of a selection; liveness probe"),
("C24","`targets`, `histories`: published count decides","all targets × counts × refresh points × who inserts; histories of fill, refuse, delete/expire, new configuration"),
("C25","`two-nodes`, `three-nodes`, `four-nodes`, `queries`, `many` (more data than one batch): one reference store for the cluster","all histories depth 3 → 4 of insert/update/expire/cut/restart at any node; 10 placements × all query shapes through each node"),
("C26","`histories`, `weeks`, `absurd`, `library`, `farewell` (used again while it drains), last-moment schedules","all use sequences to depth 3 → 4 for retentions of 30 s … 30 days; schedules with pauses"),
("C27","`small`, `rebuilds`, `odd-vectors`, `large` on the native library","all subsets of a pool × limits × dimensions 1–3, rebuild pairs, sizes across the leaf size"),
("C28","`spread` (also with all data at one point), `alike`, `targets`, `background`, schedules of two/three peers that rebalance at once","all placements ≤ 4 data on 2–3 peers, all draws; schedules 1 → 2"),
("C29","`configurations`, `command-line` (child processes), `stops`, `schedules-signal`, `schedules-start*`","3240 configurations; signals at every phase, one or two of them; schedules 1 → 2"),
]
seeds=[]
cat=json.load(open('/verif/tools/seed_notes.json')) if os.path.exists('/verif/tools/seed_notes.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    seeds.append("| %s | %s | %s | %s |"%(i,m['property'],m['needs'],cat.get(i,'caught by %s quick'%m['property'])))
t=open('/verif/tools/DESIGN.tmpl.md').read()
t=t.replace('@@TABLE@@','\n'.join('| %s | %s | %s |'%r for r in rows)).replace('@@SEEDS@@','| planted bug | property | needs | result |\n|---|---|---|---|\n'+'\n'.join(seeds)).replace('@@NFIX@@',str(len(json.load(open('/verif/known_findings.json'))['fixed'])))
open('/verif/DESIGN.md','w').write(t)
