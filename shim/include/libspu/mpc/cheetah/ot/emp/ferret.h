#pragma once
// emp-ot is not available offline: the EMP flavour of the ferret OT is served
// by the repository's own YACL flavour (same interface).
#include "libspu/mpc/cheetah/ot/yacl/ferret.h"
namespace spu::mpc::cheetah {
class EmpFerretOt : public YaclFerretOt {
 public:
  EmpFerretOt(std::shared_ptr<Communicator> conn, bool is_sender, bool = false)
      : YaclFerretOt(std::move(conn), is_sender, false) {}
};
}  // namespace spu::mpc::cheetah
