#pragma once
#include "FourQ_api.h"
