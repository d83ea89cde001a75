#include "ga.hpp"
