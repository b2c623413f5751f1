#include "boost/asio/all.hpp"
