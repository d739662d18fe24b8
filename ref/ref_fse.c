// Pristine copy of the FSE decoder (plot format's entropy decoder), symbols renamed so that it never mixes with the tree's own.
#define FSE_versionNumber ref_FSE_versionNumber
#define FSE_isError ref_FSE_isError
#define FSE_getErrorName ref_FSE_getErrorName
#define HUF_isError ref_HUF_isError
#define HUF_getErrorName ref_HUF_getErrorName
#define FSE_readNCount ref_FSE_readNCount
#define HUF_readStats ref_HUF_readStats
#define FSE_createDTable ref_FSE_createDTable
#define FSE_freeDTable ref_FSE_freeDTable
#define FSE_buildDTable ref_FSE_buildDTable
#define FSE_buildDTable_rle ref_FSE_buildDTable_rle
#define FSE_buildDTable_raw ref_FSE_buildDTable_raw
#define FSE_decompress_usingDTable ref_FSE_decompress_usingDTable
#define FSE_decompress_wksp ref_FSE_decompress_wksp
#define FSE_decompress ref_FSE_decompress
#include "fse/entropy_common.c"
#undef CHECK_F
#include "fse/fse_decompress.c"
