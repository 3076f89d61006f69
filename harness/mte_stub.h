// Forced into every file of /repo in place of arm_mte.h: the memory tagging instructions are calls into the driver.
#ifndef HM_MTE_STUB
#define HM_MTE_STUB
#define ARM_MTE_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#ifndef PROT_MTE
#define PROT_MTE 0x20
#endif
#ifdef __cplusplus
extern "C" {
#endif
#define HM_EXT __attribute__((visibility("default"), weak)) extern
HM_EXT void *hm_mte_irg(void *p, uint64_t mask);
HM_EXT void hm_mte_stzg(void *p, size_t n);
HM_EXT void *hm_mte_memcpy(void *d, const void *s, size_t n);
HM_EXT void *hm_mte_memset(void *d, int c, size_t n);
#ifdef __cplusplus
}
#endif
static inline void *arm_mte_create_random_tag(void *p, uint64_t mask) { return hm_mte_irg(p, mask); }
static inline void arm_mte_tag_and_clear_mem(void *p, size_t n) { hm_mte_stzg(p, n); }
#define memcpy(d, s, n) hm_mte_memcpy(d, s, n)
#define memset(d, c, n) hm_mte_memset(d, c, n)
#endif
