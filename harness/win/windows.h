// The part of the Win32 API the library uses.  The VC generator gives the fiber functions their contract (vc/winfib.py);
// the native replay implements them over ucontext (harness/vc_native.cpp).  The memory functions have their contract in
// harness/winstack.cpp.
#ifndef VC_WINDOWS_H
#define VC_WINDOWS_H
#include <cstddef>
#ifndef _WIN32_WINNT
#define _WIN32_WINNT 0x0601
#endif
#define WINAPI
#define VOID void
typedef void *LPVOID;
typedef unsigned int DWORD;
typedef int BOOL;
typedef std::size_t SIZE_T;
typedef void (*LPFIBER_START_ROUTINE)(LPVOID);
#define TRUE 1
#define FALSE 0
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_ALREADY_FIBER 1280
extern "C" {
BOOL IsThreadAFiber();
LPVOID GetCurrentFiber();
LPVOID ConvertThreadToFiber(LPVOID);
BOOL ConvertFiberToThread();
LPVOID CreateFiber(SIZE_T, LPFIBER_START_ROUTINE, LPVOID);
void SwitchToFiber(LPVOID);
void DeleteFiber(LPVOID);
DWORD GetLastError();
void SetLastError(DWORD);
}
// memory
typedef DWORD *PDWORD;
typedef const void *LPCVOID;
typedef unsigned short WORD;
typedef unsigned long DWORD_PTR;
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define MEM_TOP_DOWN 0x100000
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_EXECUTE_READWRITE 0x40
#define PAGE_GUARD 0x100
typedef struct _SYSTEM_INFO {
  WORD wProcessorArchitecture, wReserved;
  DWORD dwPageSize;
  LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress;
  DWORD_PTR dwActiveProcessorMask;
  DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity;
  WORD wProcessorLevel, wProcessorRevision;
} SYSTEM_INFO, *LPSYSTEM_INFO;
extern "C" {
LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD);
BOOL VirtualProtect(LPVOID, SIZE_T, DWORD, PDWORD);
BOOL VirtualFree(LPVOID, SIZE_T, DWORD);
void GetSystemInfo(LPSYSTEM_INFO);
void GetNativeSystemInfo(LPSYSTEM_INFO);
}
#endif
