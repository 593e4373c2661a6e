#pragma once
#include "charm_rt.h"
