// rotating triples (destination, first operand, second operand): every vector shape in every role
#pragma once
#include "shapes.h"
#define VCOMBOS(F,op) F(op,0,VFix,VFix,VFix) F(op,1,VDyn,VFix,VDyn) F(op,2,VCol,VDyn,VFix) F(op,3,VFix,VSub,VCol) F(op,4,VSub,VCol,VSubD) F(op,5,VSubD,VOwn,VSub) F(op,6,VOwn,VColD,VOwn) F(op,7,VColD,VSubD,VRow) \
  F(op,8,VRow,VDiag,VDiagD) F(op,9,VDiag,VDiagD,VStrSub) F(op,10,VDiagD,VRow,VRsz) F(op,11,VStrSub,VStrSubD,VDiag) F(op,12,VStrSubD,VRsz,VStrSubD) F(op,13,VRef,VStrSub,VRef) F(op,14,VFix,VRef,VColD) F(op,15,VRsz,VDyn,VDyn)
#define MCOMBOS(F,op) F(op,0,MFix,MFix,MFix) F(op,1,MFixC,MFix,MFixC) F(op,2,MFix,MFixC,MT) F(op,3,MDyn,MFixC,MTD) F(op,4,MT,MDyn,MDynC) F(op,5,MTD,MT,MSub) F(op,6,MSub,MTD,MSubC) F(op,7,MSubC,MSubT,MFix) \
  F(op,8,MSubT,MSubD,MDyn) F(op,9,MSubD,MSub,MSubT) F(op,10,MRowDyn,MSubC,MRef) F(op,11,MColDyn,MRowDyn,MColDyn) F(op,12,MDynC,MColDyn,MRowDynC) F(op,13,MRowDynC,MDynC,MSubD) F(op,14,MRef,MRowDynC,MRowDyn) F(op,15,MOwn,MOwnC,MOwn) F(op,16,MOwnC,MRef,MOwnC)
