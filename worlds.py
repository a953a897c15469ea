"""Which worlds decide which property, and how many simulated runs each tier makes.
(count, seconds cap) per world; counts are split over 8 processes."""

RULE = "Plans (operations, faults, schedule choices) are drawn from VERIF_SEED."
STORE_ASSUME = [
    "RocksDB 8.9 itself is trusted for what its documentation promises; it runs for real on a simulated disk",
    "at most one non-crash fault per process life hits MANIFEST/CURRENT (RocksDB 8.9 itself deletes the live "
    "MANIFEST after two in a row)",
]

CHECKS = {
    "C01": {"level": "fault_enumeration", "worlds": [{"world": "store_durable", "quick": (12500, 200), "thorough": (80000, 700)}]},
    "C02": {"level": "fault_enumeration", "worlds": [{"world": "store_power", "quick": (13800, 200), "thorough": (80000, 700)}]},
    "C03": {"level": "exploration", "worlds": [{"world": "store_reduce", "quick": (12500, 200), "thorough": (80000, 700)}]},
    "C04": {"level": "exploration", "worlds": [{"world": "store_iter", "quick": (12500, 200), "thorough": (80000, 700)}]},
    "C05": {"level": "fault_enumeration", "worlds": [{"world": "store_branch", "quick": (12500, 200), "thorough": (80000, 700)}]},
    "C06": {"level": "fault_enumeration", "worlds": [{"world": "store_errors", "quick": (12000, 200), "thorough": (80000, 700)}]},
    "C07": {"level": "fault_enumeration", "worlds": [{"world": "store_repair", "quick": (9600, 200), "thorough": (80000, 700)}]},
    "C08": {"level": "exploration", "worlds": [{"world": "rdt_id", "quick": (35200, 200), "thorough": (400000, 500)},
                                               {"world": "rdt_max", "quick": (17600, 140), "thorough": (200000, 200)}]},
    "C09": {"level": "exploration", "worlds": [{"world": "rdt_rga", "quick": (52800, 200), "thorough": (400000, 700)}]},
    "C10": {"level": "exploration", "worlds": [{"world": "rdt_vis", "quick": (52800, 200), "thorough": (400000, 700)}]},
    "C11": {"level": "fault_enumeration", "worlds": [{"world": "rep_atomic", "quick": (4100, 140), "thorough": (20000, 450)},
                                                     {"world": "rep_power", "quick": (2700, 140), "thorough": (12000, 300)}]},
    "C12": {"level": "exploration", "worlds": [{"world": "rep_causal", "quick": (4800, 200), "thorough": (30000, 700)}]},
    "C13": {"level": "exploration", "worlds": [{"world": "rep_clock", "quick": (5900, 200), "thorough": (30000, 700)}]},
    "C14": {"level": "exploration", "worlds": [{"world": "rep_net", "quick": (2600, 200), "thorough": (20000, 750)}]},
    "C15": {"level": "exploration", "worlds": [{"world": "rep_state", "quick": (4200, 200), "thorough": (30000, 700)}]},
    "C16": {"level": "exploration", "worlds": [{"world": "rep_wire", "quick": (4200, 200), "thorough": (30000, 700)}]},
    "C17": {"level": "exploration", "worlds": [{"world": "rep_junk", "quick": (2000, 100), "thorough": (20000, 300)},
                                               {"world": "rep_junk", "variant": "asan", "quick": (900, 120), "thorough": (9000, 450)}]},
    "C18": {"level": "exploration", "worlds": [{"world": "rep_hash", "quick": (3100, 200), "thorough": (30000, 700)}]},
    "C19": {"level": "fault_enumeration", "worlds": [{"world": "rep_branch", "quick": (4500, 200), "thorough": (30000, 700)}]},
    "C20": {"level": "fault_enumeration", "worlds": [{"world": "rep_cli", "quick": (2400, 200), "thorough": (30000, 700)}]},
    "C21": {"level": "exploration", "worlds": [{"world": "store_join", "quick": (6400, 140), "thorough": (60000, 400)},
                                               {"world": "rep_txn", "quick": (2600, 140), "thorough": (15000, 350)}]},
}
for k, c in CHECKS.items():
    c["rule"] = RULE
    if k <= "C07" or k >= "C11":
        c["assumptions"] = STORE_ASSUME
