#pragma once
namespace folly { template <class T> class UnboundedBlockingQueue {}; }
