#pragma once
#include "./mpi.hpp"
namespace mpi {
  struct monitor {
    monitor(communicator);
    ~monitor();
    void request_emergency_stop();
    [[nodiscard]] bool emergency_occured();
    void finalize_communications();
    [[nodiscard]] bool any_event();
    void report_local_event();
    void finalize_communication();
  };
} // namespace mpi
