// Scaled-down format parameters, see CHIA_MC_SCALE in include/chia/chia.h
static constexpr uint32_t kEntriesPerPark = MC_EPP;
static constexpr double kMaxAverageDeltaTable1 = MC_D1;
static constexpr double kMaxAverageDelta = MC_D;
static constexpr uint32_t kCheckpoint1Interval = MC_C1;
static constexpr uint32_t kCheckpoint2Interval = MC_C2;
static constexpr double kC3BitsPerEntry = MC_C3B;
