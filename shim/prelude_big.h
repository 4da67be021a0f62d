#pragma once
#include "prelude.h"
#include <google/protobuf/message.h>
#include <google/protobuf/repeated_field.h>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/util/message_differencer.h>
#include "psi/proto/psi.pb.h"
#include "psi/proto/psi_v2.pb.h"
#include "psi/proto/pir.pb.h"
#include "psi/proto/entry.pb.h"
#include "yacl/link/context.h"
#include "yacl/link/link.h"
#include "arrow/api.h"
#include "arrow/csv/api.h"
#include "boost/algorithm/string.hpp"
