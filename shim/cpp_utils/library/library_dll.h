#pragma once
#define CPP_UTILS_DllAPI
