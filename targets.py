"""What each check's binary is made of. Groups are offered to the linker like an
archive (only used members are linked); 'repo' lists single files."""
def T(harness, groups=(), repo=(), **kw):
    return dict(harness=['pbt_main.cc'] + list(harness), groups=list(groups), repo=list(repo), **kw)

CORE = ['core', 'proto', 'shim']
MPC = ['mpc'] + CORE
FULL = ['kernel', 'device'] + MPC

TARGETS = {
    'C01': T(['c01_encoding.cc'], CORE),
    'C02': T(['c02_ndarray.cc'], CORE),
    'C03': T(['c03_proto.cc'], FULL),
    'C36': T(['c36_config.cc'], FULL),
    'C07': T(['c07_linalg.cc'], repo=['libspu/mpc/utils/linalg.cc'], groups=[]),
    'C05': T(['c05_half.cc']),
    'C06': T(['c06_cexpr.cc'], CORE),
    'C04': T(['c04_helpers.cc'], CORE),
    'C33': T(['c33_random.cc'], FULL),
    'C34': T(['c34_io.cc'], FULL),
    'C35': T(['c35_dump.cc'], repo=['libspu/device/utils/debug_dump_constant.cc']),
    'C08': T(['c08_ring.cc'], MPC),
    'C09': T(['c09_gfmp.cc'], MPC),
    'C10': T(['c10_permute.cc'], MPC),
    'C11': T(['c11_circuits.cc'], MPC),
    'C12': T(['c12_prg.cc'], MPC),
    'C13': T(['c13_comm.cc'], MPC),
    'C14': T(['c14_share.cc'], FULL),
    'C15': T(['c15_arith.cc'], FULL),
    'C16': T(['c16_bool.cc'], FULL),
    'C17': T(['c17_trunc.cc'], FULL),
    'C18': T(['c18_perm.cc'], FULL),
    'C19': T(['c19_beaver.cc'], FULL),
    'C20': T(['c20_privacy.cc'], FULL),
    'C21': T(['c21_malicious.cc'], FULL),
    'C38': T(['c38_ot.cc'], FULL),
    'C23': T(['c23_sched.cc'] + [f for f in ('c14_share.cc c15_arith.cc c16_bool.cc c17_trunc.cc c18_perm.cc c24_intops.cc c25_fxp.cc c26_nonlinear.cc '
                                  'c27_index.cc c28_reduce.cc c29_sort.cc c30_table.cc c31_control.cc c32_cast.cc c33_random.cc c34_io.cc').split()], FULL),
    'C24': T(['c24_intops.cc'], FULL),
    'C25': T(['c25_fxp.cc'], FULL),
    'C26': T(['c26_nonlinear.cc'], FULL),
    'C27': T(['c27_index.cc'], FULL),
    'C28': T(['c28_reduce.cc'], FULL),
    'C29': T(['c29_sort.cc'], FULL),
    'C30': T(['c30_table.cc'], FULL),
    'C31': T(['c31_control.cc'], FULL),
    'C32': T(['c32_cast.cc'], FULL),
    'C39': T(['c39_trace.cc'], CORE),
    'C23T': T(['c23_sched.cc', 'c14_share.cc', 'c15_arith.cc', 'c16_bool.cc', 'c17_trunc.cc', 'c18_perm.cc'],
              FULL, flags=['-fsanitize=thread', '-O1'], tag='tsan', san='thread'),
}
# properties sharing a binary: property -> target
ALIAS = {}
def target_of(prop):
    return ALIAS.get(prop, prop)
# further binaries a property's check runs after the first: (target, their checks)
ALSO = {'C23': [('C23T', ('races', 'fork_races'))]}
CLAIMED = sorted((set(TARGETS) | set(ALIAS)) - {t for v in ALSO.values() for t, _ in v})
