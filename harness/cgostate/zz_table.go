//go:build zzcgotab

package cgo

// #include <ubc_check.h>
// static uint32_t zz_dv(int i, int f, int j) {
//   switch (f) {
//   case 0: return (uint32_t)sha1_dvs[i].dvType;
//   case 1: return (uint32_t)sha1_dvs[i].dvK;
//   case 2: return (uint32_t)sha1_dvs[i].dvB;
//   case 3: return (uint32_t)sha1_dvs[i].testt;
//   case 4: return (uint32_t)sha1_dvs[i].maski;
//   case 5: return (uint32_t)sha1_dvs[i].maskb;
//   }
//   return sha1_dvs[i].dm[j];
// }
import "C"

// ZZDv reads one field (0-5) or word (6) of the C catalogue.
func ZZDv(i, f, j int) uint32 { return uint32(C.zz_dv(C.int(i), C.int(f), C.int(j))) }
