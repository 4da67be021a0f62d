#pragma once
// Stand-in: the keyword-PIR back end (SEAL, HEU) cannot be built here.
#include <memory>
#include <string>
#include <vector>
#include "yacl/link/context.h"
#include "psi/proto/psi.pb.h"
namespace psi::dkpir {
struct DkPirSenderOptions {
  std::size_t threads = 1, nonce_byte_count = 16; bool compress = false, streaming_result = true, skip_count_check = false, silent = false;
  CurveType curve_type; std::string log_level, log_file, params_file, source_file, value_sdb_out_file, count_sdb_out_file, secret_key_file, result_file, tmp_folder, key; std::vector<std::string> labels;
};
struct DkPirReceiverOptions {
  std::size_t threads = 1; bool streaming_result = true, skip_count_check = false, silent = false;
  CurveType curve_type; std::string log_level, log_file, params_file, query_file, result_file, tmp_folder, key; std::vector<std::string> labels;
};
inline int SenderOffline(const DkPirSenderOptions&) { abort(); }
inline int SenderOnline(const DkPirSenderOptions&, std::shared_ptr<yacl::link::Context>) { abort(); }
inline int ReceiverOnline(const DkPirReceiverOptions&, std::shared_ptr<yacl::link::Context>) { abort(); }
}  // namespace psi::dkpir
