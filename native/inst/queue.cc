// Instantiates the queue templates so that every member is extracted.
#include <cstdint>
#include "reverb/cc/support/queue.h"
#include "reverb/cc/support/unbounded_queue.h"
template class deepmind::reverb::internal::Queue<uint64_t>;
template class deepmind::reverb::internal::UnboundedQueue<uint64_t>;
