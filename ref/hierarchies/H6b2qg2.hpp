
#pragma once
#include "ref/hierarchies/HierarchyTypes.hpp"
namespace vref{
namespace hierarchies{
   class H6b2qg2{
   public:
      H6b2qg2(const ExpansionFlags_t& expansionDepth, R Al4p, R beta, R Dmglst2,
                 R Dmsqst2, R lmMt, R lmMst1, R lmMst2,
                 R Mgl, R Mt, R Mst1, R Mst2, R MuSUSY,
                 R s2t,
                 int mdrFlag, int oneLoopFlag, int twoLoopFlag, int threeLoopFlag);
      R getS1() const;
      R getS2() const;
      R getS12() const;
      R calc_coef_at_as2_no_sm_logs_log0() const;
      R calc_coef_at_as2_no_sm_logs_log1() const;
      R calc_coef_at_as2_no_sm_logs_log2() const;
      R calc_coef_at_as2_no_sm_logs_log3() const;
   private:
      R Dmglst2{}, Dmsqst2{}, lmMt{}, lmMst1{}, lmMst2{}, Mgl{}, Mt{}, Mst1{}, Mst2{}, MuSUSY{}, s2t{}, Tbeta{}, Sbeta{}, Al4p{}; ///< common variables
      int shiftst1{}, shiftst2{}, shiftst3{}, xDR2DRMOD{}, xDmsqst2{}, xDmglst2{}, xMst{}; ///< MDR and truncation flags
      int oneLoopFlag{}, twoLoopFlag{}, threeLoopFlag{}; ///< loop flags
   };
}        // hierarchies
}        // himalaya
