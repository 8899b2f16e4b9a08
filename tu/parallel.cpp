// instantiates cpb::parallel_for, which only the (not built) Python module uses
#include "Model.hpp"
#include "detail/thread.hpp"
#include <functional>
#include <memory>
#include <vector>

namespace vt {
    struct Work { std::shared_ptr<int> p; };

    void run(std::size_t size, std::size_t num_threads, std::size_t queue_size, std::function<Work (std::size_t)> produce,
             std::function<void (Work&)> compute, std::function<void (Work, std::size_t)> retire) {
        cpb::parallel_for(size, num_threads, queue_size, produce, compute, retire);
    }
}

template void cpb::detail::Queue<vt::Work>::push(const vt::Work&);
template void cpb::detail::Queue<vt::Work>::push(vt::Work&&);
template cpb::detail::Queue<vt::Work>::Maybe cpb::detail::Queue<vt::Work>::pop();
