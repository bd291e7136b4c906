// The supported option combinations (sorted parameters), as documented by the table in src/main.cpp.
static const char *supportedCombinations[] = {
  "",
  "--IROSfastslow --explicitStrategy --jsonOutput --simpleRecovery --sysInitRoboticsSemantics",
  "--IROSfastslow --explicitStrategy --jsonOutput --simpleRecovery",
  "--IROSfastslow --explicitStrategy --jsonOutput --sysInitRoboticsSemantics",
  "--IROSfastslow --explicitStrategy --jsonOutput",
  "--IROSfastslow --explicitStrategy --simpleRecovery --sysInitRoboticsSemantics",
  "--IROSfastslow --explicitStrategy --simpleRecovery",
  "--IROSfastslow --explicitStrategy --sysInitRoboticsSemantics",
  "--IROSfastslow --explicitStrategy",
  "--IROSfastslow --extractExplicitPermissiveStrategy --sysInitRoboticsSemantics",
  "--IROSfastslow --extractExplicitPermissiveStrategy",
  "--IROSfastslow --interactiveStrategy",
  "--IROSfastslow --simpleRecovery --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--IROSfastslow --simpleRecovery --simpleSymbolicStrategy",
  "--IROSfastslow --simpleRecovery --symbolicStrategy --sysInitRoboticsSemantics",
  "--IROSfastslow --simpleRecovery --symbolicStrategy",
  "--IROSfastslow --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--IROSfastslow --simpleSymbolicStrategy",
  "--IROSfastslow --symbolicStrategy --sysInitRoboticsSemantics",
  "--IROSfastslow --symbolicStrategy",
  "--IROSfastslow --sysInitRoboticsSemantics",
  "--IROSfastslow",
  "--analyzeAssumptions",
  "--analyzeInitialPositions --restrictToReachableStates",
  "--analyzeInitialPositions",
  "--analyzeInterleaving",
  "--analyzeSafetyLivenessInteraction",
  "--biasForAction --explicitStrategy --jsonOutput --simpleRecovery --sysInitRoboticsSemantics",
  "--biasForAction --explicitStrategy --jsonOutput --simpleRecovery",
  "--biasForAction --explicitStrategy --jsonOutput --sysInitRoboticsSemantics",
  "--biasForAction --explicitStrategy --jsonOutput",
  "--biasForAction --explicitStrategy --simpleRecovery --sysInitRoboticsSemantics",
  "--biasForAction --explicitStrategy --simpleRecovery",
  "--biasForAction --explicitStrategy --sysInitRoboticsSemantics",
  "--biasForAction --explicitStrategy",
  "--biasForAction --extractExplicitPermissiveStrategy --sysInitRoboticsSemantics",
  "--biasForAction --extractExplicitPermissiveStrategy",
  "--biasForAction --interactiveStrategy",
  "--biasForAction --simpleRecovery --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--biasForAction --simpleRecovery --simpleSymbolicStrategy",
  "--biasForAction --simpleRecovery --symbolicStrategy --sysInitRoboticsSemantics",
  "--biasForAction --simpleRecovery --symbolicStrategy",
  "--biasForAction --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--biasForAction --simpleSymbolicStrategy",
  "--biasForAction --symbolicStrategy --sysInitRoboticsSemantics",
  "--biasForAction --symbolicStrategy",
  "--biasForAction --sysInitRoboticsSemantics",
  "--biasForAction",
  "--computeAbstractWinningTrace",
  "--computeCNFFormOfTheSpecification",
  "--computeIncompleteInformationEstimator",
  "--computeInterestingRunOfTheSystem",
  "--computeWeakenedSafetyAssumptions",
  "--cooperativeGR1Strategy --explicitStrategy --jsonOutput --simpleRecovery --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --explicitStrategy --jsonOutput --simpleRecovery",
  "--cooperativeGR1Strategy --explicitStrategy --jsonOutput --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --explicitStrategy --jsonOutput",
  "--cooperativeGR1Strategy --explicitStrategy --simpleRecovery --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --explicitStrategy --simpleRecovery",
  "--cooperativeGR1Strategy --explicitStrategy --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --explicitStrategy",
  "--cooperativeGR1Strategy --interactiveStrategy",
  "--cooperativeGR1Strategy --simpleRecovery --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --simpleRecovery --simpleSymbolicStrategy",
  "--cooperativeGR1Strategy --simpleRecovery --symbolicStrategy --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --simpleRecovery --symbolicStrategy",
  "--cooperativeGR1Strategy --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --simpleSymbolicStrategy",
  "--cooperativeGR1Strategy --symbolicStrategy --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy --symbolicStrategy",
  "--cooperativeGR1Strategy --sysInitRoboticsSemantics",
  "--cooperativeGR1Strategy",
  "--counterStrategy --sysInitRoboticsSemantics",
  "--counterStrategy",
  "--explicitStrategy --fixedPointRecycling --jsonOutput --simpleRecovery --sysInitRoboticsSemantics",
  "--explicitStrategy --fixedPointRecycling --jsonOutput --simpleRecovery",
  "--explicitStrategy --fixedPointRecycling --jsonOutput --sysInitRoboticsSemantics",
  "--explicitStrategy --fixedPointRecycling --jsonOutput",
  "--explicitStrategy --fixedPointRecycling --simpleRecovery --sysInitRoboticsSemantics",
  "--explicitStrategy --fixedPointRecycling --simpleRecovery",
  "--explicitStrategy --fixedPointRecycling --sysInitRoboticsSemantics",
  "--explicitStrategy --fixedPointRecycling",
  "--explicitStrategy --jsonOutput --simpleRecovery --sysInitRoboticsSemantics --twoDimensionalCost",
  "--explicitStrategy --jsonOutput --simpleRecovery --sysInitRoboticsSemantics",
  "--explicitStrategy --jsonOutput --simpleRecovery --twoDimensionalCost",
  "--explicitStrategy --jsonOutput --simpleRecovery",
  "--explicitStrategy --jsonOutput --sysInitRoboticsSemantics --twoDimensionalCost",
  "--explicitStrategy --jsonOutput --sysInitRoboticsSemantics",
  "--explicitStrategy --jsonOutput --twoDimensionalCost",
  "--explicitStrategy --jsonOutput",
  "--explicitStrategy --simpleRecovery --sysInitRoboticsSemantics --twoDimensionalCost",
  "--explicitStrategy --simpleRecovery --sysInitRoboticsSemantics",
  "--explicitStrategy --simpleRecovery --twoDimensionalCost",
  "--explicitStrategy --simpleRecovery",
  "--explicitStrategy --sysInitRoboticsSemantics --twoDimensionalCost",
  "--explicitStrategy --sysInitRoboticsSemantics",
  "--explicitStrategy --twoDimensionalCost",
  "--explicitStrategy",
  "--extractExplicitPermissiveStrategy --fixedPointRecycling --sysInitRoboticsSemantics",
  "--extractExplicitPermissiveStrategy --fixedPointRecycling",
  "--extractExplicitPermissiveStrategy --sysInitRoboticsSemantics --twoDimensionalCost",
  "--extractExplicitPermissiveStrategy --sysInitRoboticsSemantics",
  "--extractExplicitPermissiveStrategy --twoDimensionalCost",
  "--extractExplicitPermissiveStrategy",
  "--fixedPointRecycling --interactiveStrategy",
  "--fixedPointRecycling --simpleRecovery --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--fixedPointRecycling --simpleRecovery --simpleSymbolicStrategy",
  "--fixedPointRecycling --simpleRecovery --symbolicStrategy --sysInitRoboticsSemantics",
  "--fixedPointRecycling --simpleRecovery --symbolicStrategy",
  "--fixedPointRecycling --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--fixedPointRecycling --simpleSymbolicStrategy",
  "--fixedPointRecycling --symbolicStrategy --sysInitRoboticsSemantics",
  "--fixedPointRecycling --symbolicStrategy",
  "--fixedPointRecycling --sysInitRoboticsSemantics",
  "--fixedPointRecycling",
  "--interactiveStrategy --nonDeterministicMotion",
  "--interactiveStrategy --twoDimensionalCost",
  "--interactiveStrategy",
  "--nonDeterministicMotion --sysInitRoboticsSemantics",
  "--nonDeterministicMotion",
  "--simpleRecovery --simpleSymbolicStrategy --sysInitRoboticsSemantics --twoDimensionalCost",
  "--simpleRecovery --simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--simpleRecovery --simpleSymbolicStrategy --twoDimensionalCost",
  "--simpleRecovery --simpleSymbolicStrategy",
  "--simpleRecovery --symbolicStrategy --sysInitRoboticsSemantics --twoDimensionalCost",
  "--simpleRecovery --symbolicStrategy --sysInitRoboticsSemantics",
  "--simpleRecovery --symbolicStrategy --twoDimensionalCost",
  "--simpleRecovery --symbolicStrategy",
  "--simpleSymbolicStrategy --sysInitRoboticsSemantics --twoDimensionalCost",
  "--simpleSymbolicStrategy --sysInitRoboticsSemantics",
  "--simpleSymbolicStrategy --twoDimensionalCost",
  "--simpleSymbolicStrategy",
  "--symbolicStrategy --sysInitRoboticsSemantics --twoDimensionalCost",
  "--symbolicStrategy --sysInitRoboticsSemantics",
  "--symbolicStrategy --twoDimensionalCost",
  "--symbolicStrategy",
  "--sysInitRoboticsSemantics --twoDimensionalCost",
  "--sysInitRoboticsSemantics",
  "--twoDimensionalCost",
};
