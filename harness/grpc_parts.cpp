// The few functions that gRPC's headers leave to its libraries.  absl's mutexes become mutexes of the simulation.
#include <grpcpp/support/client_callback.h>
#include <grpcpp/support/server_callback.h>
#include <pthread.h>

namespace grpc
{
    const Status& Status::OK        = *new Status();
    const Status& Status::CANCELLED = *new Status(StatusCode::CANCELLED, "");
    namespace internal
    {
        void ClientReactor::InternalScheduleOnDone(grpc::Status) { abort(); }
        bool ClientReactor::InternalTrailersOnly(const grpc_call*) const { abort(); }
        void ServerCallbackCall::ScheduleOnDone(bool) { abort(); }
        void ServerCallbackCall::CallOnCancel(ServerReactor*) { abort(); }
    }
}
namespace
{
    pthread_mutex_t g_pool[64];
    int             g_used;
    pthread_mutex_t* of(absl::Mutex* m)
    {
        auto& p = *reinterpret_cast<pthread_mutex_t**>(m);
        if (!p)
        {
            if (g_used == 64)
                abort();
            p = &g_pool[g_used++];
        }
        return p;
    }
}
namespace absl
{
    ABSL_NAMESPACE_BEGIN
    void Mutex::Lock() { pthread_mutex_lock(of(this)); }
    void Mutex::Unlock() { pthread_mutex_unlock(of(this)); }
    Mutex::~Mutex() {}
    ABSL_NAMESPACE_END
}
extern "C"
{
    void __tsan_mutex_create(void*, unsigned) {}
    void __tsan_mutex_destroy(void*, unsigned) {}
}
