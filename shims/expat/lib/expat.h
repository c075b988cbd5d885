#pragma once
#include <expat.h>
