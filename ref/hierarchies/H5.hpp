
#pragma once
#include "ref/hierarchies/HierarchyTypes.hpp"
namespace vref{
namespace hierarchies{
   class H5{
   public:
      H5(const ExpansionFlags_t& expansionDepth, R Al4p, R beta, R Dmglst1,
                 R lmMt, R lmMst1, R lmMst2, R lmMsq, R Mt, R Mst1,
                 R Mst2, R Msq, R MuSUSY,
                 R s2t,
                 int mdrFlag, int oneLoopFlag, int twoLoopFlag, int threeLoopFlag);
      R getS1() const;
      R getS2() const;
      R getS12() const;
      R calc_coef_at_as2_no_sm_logs_log0() const;
      R calc_coef_at_as2_no_sm_logs_log1() const;
      R calc_coef_at_as2_no_sm_logs_log2() const;
      R calc_coef_at_as2_no_sm_logs_log3() const;
   private:
      R Dmglst1{}, lmMt{}, lmMst1{}, lmMst2{}, lmMsq{}, Mt{}, Mst1{}, Mst2{}, Msq{}, MuSUSY{}, s2t{}, Tbeta{}, Sbeta{}, Cbeta{}, Al4p{}; ///< common variables
      int shiftst1{}, shiftst2{}, shiftst3{}, xDmglst1{}, xMsq{}; ///< MDR and truncation flags
      int oneLoopFlag{}, twoLoopFlag{}, threeLoopFlag{}; ///< loop flags
   };
}        // hierarchies
}        // himalaya
