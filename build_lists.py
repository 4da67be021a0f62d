import glob, os
REPO = os.environ.get('PSI_REPO', '/repo')

# What cannot be built here (missing SEAL/APSI/HEU/IPP/gflags/rapidjson) or is
# replaced by a stand-in.
EXCLUDE = {'psi/cryptor/ipp_ecc_cryptor.cc', 'psi/cryptor/hash_to_curve_elligator2.cc', 'psi/apps/psi_launcher/main.cc', 'psi/apps/psi_launcher/kuscia_adapter.cc', 'psi/utils/csv_converter.cc'}
def src(*dirs):
    r = []
    for d in dirs:
        for f in sorted(glob.glob('%s/%s/*.cc' % (REPO, d))):
            b = os.path.basename(f)
            if b.endswith(('_test.cc', '_benchmark.cc', '_bench.cc')) or 'benchmark' in b or b in ('main.cc',): continue
            p = os.path.relpath(f, REPO)
            if p not in EXCLUDE: r.append(p)
    return r

PROTOS = ['psi/proto/psi.proto', 'psi/proto/psi_v2.proto', 'psi/proto/pir.proto', 'psi/proto/entry.proto', 'psi/proto/kuscia.proto',
          'psi/algorithm/ecdh/ub_psi/ub_psi_cache.proto', 'psi/checkpoint/checkpoint.proto', 'psi/utils/serializable.proto',
          'psi/utils/table_utils.proto', 'experiment/pir/piano/piano.proto', 'psi/algorithm/pir_interface/pir_type.proto', 'psi/algorithm/spiral/serializable.proto']
SHIM_PROTOS = ['yacl/link/link.proto']

CORE = src('psi', 'psi/utils', 'psi/cryptor', 'psi/checkpoint', 'psi/algorithm', 'psi/algorithm/ecdh', 'psi/algorithm/ecdh/ub_psi',
           'psi/algorithm/kkrt', 'psi/algorithm/rr22', 'psi/algorithm/rr22/okvs', 'psi/algorithm/nty', 'psi/legacy', 'psi/legacy/dp_psi', 'psi/apps/psi_launcher')
_SPIRAL = src('psi/algorithm/spiral', 'psi/algorithm/spiral/arith', 'psi/algorithm/pir_interface')
# the polynomial arithmetic has no shared state: not instrumented
SPIRAL_FAST = [f for f in _SPIRAL if '/arith/' in f or '/poly_matrix' in f or f.endswith(('gadget.cc', 'discrete_gaussian.cc'))]
SPIRAL = [f for f in _SPIRAL if f not in SPIRAL_FAST]
EXPT = src('experiment/psi/kmprt17_mp_psi', 'experiment/psi/threshold_ecdh_psi', 'experiment/psi/threshold_ub_psi', 'experiment/pir/piano', 'experiment/pir/pps', 'experiment/pir/simplepir')
SHIM = ['shim/shim.cc', 'shim/stubs.cc', 'shim/arrow_shim.cc', 'shim/link_shim.cc', 'shim/absl_shim.cc', 'harness/common.cc', 'harness/world.cc', 'harness/psi2.cc', 'harness/ub.cc', 'harness/psi2f.cc', 'harness/okvs.cc', 'harness/legacy.cc', 'harness/dp.cc', 'harness/pir.cc', 'harness/spiral.cc', 'harness/store.cc', 'harness/reader.cc']
LIBS = '-lprotobuf -lspdlog -lfmt -lcrypto -labsl_strings -labsl_strings_internal -labsl_str_format_internal -labsl_int128 -labsl_time -labsl_time_zone -labsl_civil_time -labsl_throw_delegate -labsl_raw_logging_internal -labsl_base -labsl_spinlock_wait -labsl_log_severity -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set -labsl_hashtablez_sampler -labsl_exponential_biased -labsl_synchronization -labsl_bad_optional_access -labsl_bad_variant_access -labsl_malloc_internal -labsl_graphcycles_internal -labsl_stacktrace -labsl_symbolize -labsl_debugging_internal -labsl_demangle_internal -lpthread -ldl'
TARGETS = {
    'sim_progress': dict(
        repo=['psi/utils/progress.cc'],
        plain=['harness/common.cc', 'harness/c12_progress.cc'],
        protos=False, libs='-lfmt -lpthread -ldl'),
    'sim_psi': dict(repo=CORE + EXPT + SPIRAL, repo_fast=SPIRAL_FAST, plain=SHIM, libs=LIBS),
}
