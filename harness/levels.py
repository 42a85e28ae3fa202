TRUST = ('Observes real executions only: the workload is drawn pseudo-randomly from VERIF_SEED, so the guarantee is that no violation '
         'occurred in the executions listed in the evidence. ')
IDEAL = TRUST + 'Trusts the in-process stand-ins for mpc_utils (channels) and emp-ot (ideal OT), which are not installed, and the compiler.'
LOCAL = TRUST + 'Trusts its own reference arithmetic, which shares no code with the repository.'
NOTE = {
 'C01': ('online reference-arithmetic monitor over two-party runs', IDEAL),
 'C02': ('freshness and uniformity monitors over delivered values and hooked expansion seeds', IDEAL),
 'C03': ('hooked-state monitor of every expansion against the published parameter table', IDEAL),
 'C04': ('channel metering monitor with paired executions', IDEAL),
 'C05': ('share-reconstruction monitor over two-party runs', IDEAL),
 'C06': ('share-reconstruction monitor over batched two-party runs', IDEAL),
 'C07': ('two-party output monitor with uniformity and independence tests', IDEAL),
 'C08': ('view monitor: receiver view compared with a reference GGM tree rebuilt from tapped randomness', IDEAL),
 'C09': ('transcript monitor: paired executions, canary scan and mask reconstruction over recorded views', IDEAL),
 'C10': ('share-reconstruction monitor over two-party runs', IDEAL),
 'C11': ('statistical and freshness monitors over recorded OT messages and shares', IDEAL),
 'C12': ('differential monitor against a reference expansion of every node', LOCAL),
 'C13': ('differential monitor of punctured trees, exhaustive over positions of small trees', LOCAL),
 'C14': ('differential monitor against an independent AES-CTR', LOCAL),
 'C15': ('counting monitor with reduced reseed intervals', LOCAL),
 'C16': ('cross-checking monitor over hash tables', LOCAL),
 'C17': ('stress monitor counting cuckoo failures', LOCAL),
 'C18': ('differential monitor against bit-serial polynomial arithmetic', LOCAL),
 'C19': ('differential monitor against integer arithmetic', LOCAL),
 'C20': ('differential monitor against exact statistical-distance computation, uniformity tests', LOCAL),
 'C21': ('two-party runs under changing and concurrent moduli with reference arithmetic', IDEAL),
 'C22': ('ThreadSanitizer with an instrumented OpenMP runtime; schedule-independence monitor', IDEAL),
 'C23': ('AddressSanitizer, LeakSanitizer and UBSan over hostile workloads', IDEAL),
 'C24': ('rejection monitor: status, atomicity and channel taps under invalid arguments', IDEAL),
 'C25': ('exact deadlock and residue monitor on the channel under injected delays', IDEAL),
}
