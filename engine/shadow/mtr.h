#ifndef MTR_H_
#define MTR_H_
#define MTR_DEFAULT 0
#endif
