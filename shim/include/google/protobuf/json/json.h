#pragma once
#include "google/protobuf/util/json_util.h"
namespace google::protobuf::json {
using ParseOptions = ::google::protobuf::util::JsonParseOptions;
using PrintOptions = ::google::protobuf::util::JsonPrintOptions;
using ::google::protobuf::util::JsonStringToMessage;
using ::google::protobuf::util::MessageToJsonString;
}  // namespace google::protobuf::json
