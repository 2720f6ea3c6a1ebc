#include <sferes/sferes.hpp>
