#ifndef PCTSP_SHIM_DEFPLUG_H
#define PCTSP_SHIM_DEFPLUG_H
#include "scip/scip.h"
#include "scip/message_default.h"
extern "C" {
SCIP_RETCODE SCIPincludeBranchruleAllfullstrong(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleCloud(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleDistribution(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleFullstrong(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleGomory(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleInference(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleLeastinf(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleLookahead(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleMostinf(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleMultAggr(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleNodereopt(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchrulePscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRandom(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRelpscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleVanillafullstrong(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrAnd(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrBenders(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrBenderslp(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrBounddisjunction(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrCardinality(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrComponents(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrConjunction(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrCountsols(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrCumulative(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrDisjunction(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrExactLinear(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrExactSol(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrFixedvar(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrIndicator(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrIntegral(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrKnapsack(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLinear(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLinking(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLogicor(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrNonlinear(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrOr(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrOrbisack(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrOrbitope(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrOrbitopeFull(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrOrbitopePP(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrPseudoboolean(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrSetppc(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrSuperindicator(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrSymresack(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrVarbound(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrXor(SCIP* scip);
SCIP_RETCODE SCIPincludeDefaultPlugins(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurActconsdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurAdaptivediving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurAlns(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurBound(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurClique(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurCoefdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurCompletesol(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurConflictdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurCrossover(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDKS(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDins(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDistributiondiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDps(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDualval(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurFarkasdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurFeaspump(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurFixandinfer(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurFracdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurGins(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurGuideddiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurIndicator(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurIndicatordiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurIntdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurIntshifting(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurLinesearchdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurLocalbranching(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurLocks(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurLpface(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurMpec(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurMultistart(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurMutation(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurNlpdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurOctane(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurOfins(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurOneopt(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurPADM(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurProximity(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurPscostdiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRandrounding(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRens(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurReoptsols(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRepair(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRins(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRootsoldiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRounding(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurScheduler(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurShiftandpropagate(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurShifting(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurSimplerounding(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurSubNlp(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurSync(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurTrivial(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurTrivialnegation(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurTrustregion(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurTrySol(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurTwoopt(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurUndercover(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurVbounds(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurVeclendiving(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurZeroobj(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurZirounding(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBreadthfirst(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselDfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselEstimate(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselHybridestim(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselRestartdfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselUct(SCIP* scip);
SCIP_RETCODE SCIPincludePresolBoundshift(SCIP* scip);
SCIP_RETCODE SCIPincludePresolConvertinttobin(SCIP* scip);
SCIP_RETCODE SCIPincludePresolDomcol(SCIP* scip);
SCIP_RETCODE SCIPincludePresolDualagg(SCIP* scip);
SCIP_RETCODE SCIPincludePresolDualcomp(SCIP* scip);
SCIP_RETCODE SCIPincludePresolDualinfer(SCIP* scip);
SCIP_RETCODE SCIPincludePresolDualsparsify(SCIP* scip);
SCIP_RETCODE SCIPincludePresolGateextraction(SCIP* scip);
SCIP_RETCODE SCIPincludePresolImplics(SCIP* scip);
SCIP_RETCODE SCIPincludePresolImplint(SCIP* scip);
SCIP_RETCODE SCIPincludePresolInttobinary(SCIP* scip);
SCIP_RETCODE SCIPincludePresolMILP(SCIP* scip);
SCIP_RETCODE SCIPincludePresolQPKKTref(SCIP* scip);
SCIP_RETCODE SCIPincludePresolRedvub(SCIP* scip);
SCIP_RETCODE SCIPincludePresolSparsify(SCIP* scip);
SCIP_RETCODE SCIPincludePresolStuffing(SCIP* scip);
SCIP_RETCODE SCIPincludePresolTrivial(SCIP* scip);
SCIP_RETCODE SCIPincludePresolTworowbnd(SCIP* scip);
SCIP_RETCODE SCIPincludePropDualfix(SCIP* scip);
SCIP_RETCODE SCIPincludePropGenvbounds(SCIP* scip);
SCIP_RETCODE SCIPincludePropNlobbt(SCIP* scip);
SCIP_RETCODE SCIPincludePropObbt(SCIP* scip);
SCIP_RETCODE SCIPincludePropProbing(SCIP* scip);
SCIP_RETCODE SCIPincludePropPseudoobj(SCIP* scip);
SCIP_RETCODE SCIPincludePropRedcost(SCIP* scip);
SCIP_RETCODE SCIPincludePropRootredcost(SCIP* scip);
SCIP_RETCODE SCIPincludePropSymmetry(SCIP* scip);
SCIP_RETCODE SCIPincludePropSync(SCIP* scip);
SCIP_RETCODE SCIPincludePropVbounds(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaAggregation(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaCGMIP(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaClique(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaClosecuts(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaConvexproj(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaDisjunctive(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaEccuts(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaFlower(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaGauge(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaGomory(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaImpliedbounds(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaInterminor(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaIntobj(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaLagromory(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaMcf(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaMinor(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaMixing(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaOddcycle(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaRapidlearning(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaRlt(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaZerohalf(SCIP* scip);
}
#endif
