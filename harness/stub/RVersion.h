#pragma once
#define ROOT_VERSION(a, b, c) (((a) << 16) + ((b) << 8) + (c))
#define ROOT_VERSION_CODE ROOT_VERSION(6, 36, 0)
