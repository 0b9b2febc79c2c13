#pragma once
namespace folly { inline void init(int*, char***) {} }
