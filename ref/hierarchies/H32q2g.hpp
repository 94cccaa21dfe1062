
#pragma once
#include "ref/hierarchies/HierarchyTypes.hpp"
namespace vref{
namespace hierarchies{
   class H32q2g{
   public:
      H32q2g(const ExpansionFlags_t& expansionDepth, R Al4p, R beta,
                 R Dmglst1, R Dmst12, R Dmsqst1, R lmMt, R lmMst1,
                 R Mt, R Mst1, R Mst2, R MuSUSY,
                 R s2t,
                 int mdrFlag, int oneLoopFlag, int twoLoopFlag, int threeLoopFlag);
      R getS1() const;
      R getS2() const;
      R getS12() const;
      R calc_coef_at_as2_no_sm_logs_log0() const;
      R calc_coef_at_as2_no_sm_logs_log1() const;
      R calc_coef_at_as2_no_sm_logs_log2() const;
      R calc_coef_at_as2_no_sm_logs_log3() const;
   private:
      R Dmglst1{}, Dmst12{}, Dmsqst1{}, lmMst1{}, Mt{}, Mst1{}, Mst2{}, MuSUSY{}, s2t{}, Tbeta{}, Sbeta{}, Al4p{}, lmMt{}; ///< common variables
      int shiftst1{}, shiftst2{}, shiftst3{}, xDmst12{}, xDmglst1{}, xDmsqst1{}; ///< MDR and truncation flags
      int oneLoopFlag{}, twoLoopFlag{}, threeLoopFlag{}; ///< loop flags
   };
}        // hierarchies
}        // himalaya
