#pragma once
#define VLOG_IS_ON(n) false
