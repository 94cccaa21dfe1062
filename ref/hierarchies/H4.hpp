
#pragma once
#include "ref/hierarchies/HierarchyTypes.hpp"
namespace vref{
namespace hierarchies{
   class H4{
   public:
      H4(const ExpansionFlags_t& expansionDepth, R Al4p, R At, R beta,
                 R lmMt, R lmMsq, R lmMsusy, R Mt, R Msusy, R Msq,
                 int mdrFlag, int oneLoopFlag, int twoLoopFlag, int threeLoopFlag);
      R getS1() const;
      R getS2() const;
      R getS12() const;
      R calc_coef_at_as2_no_sm_logs_log0() const;
      R calc_coef_at_as2_no_sm_logs_log1() const;
      R calc_coef_at_as2_no_sm_logs_log2() const;
      R calc_coef_at_as2_no_sm_logs_log3() const;
   private:
      R At{}, lmMt{}, lmMsq{}, lmMsusy{}, Msusy{}, Mt{}, Msq{}, Cbeta{}, Sbeta{}, Al4p{}; ///< common variables
      R shiftst1{}, shiftst2{}, shiftst3{}, xAt{}, xMsq{}, xlmMsusy{}, xMsusy{}; ///< MDR and truncation flags
      int oneLoopFlag{}, twoLoopFlag{}, threeLoopFlag{}; ///< loop flags
   };
}        // hierarchies
}        // himalaya
