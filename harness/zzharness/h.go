// Package zzharness states the properties as symbolic harnesses over the real code.
package zzharness

// Registry of the harnesses, for native replay.
var Registry = map[string]func(){
	"CheckExpr":          CheckExpr,
	"CheckRec":           CheckRec,
	"CheckTTU":           CheckTTU,
	"CheckMutual":        CheckMutual,
	"CheckNames":         CheckNames,
	"CheckLarge":         CheckLarge,
	"CheckLong":          CheckLong,
	"CheckDeep":          CheckDeep,
	"CheckHistory":       CheckHistory,
	"CheckWide":          CheckWide,
	"ExplainRec":         ExplainRec,
	"ExplainText":        ExplainText,
	"ExplainLarge":       ExplainLarge,
	"SetAdmission":       SetAdmission,
	"SetNames":           SetNames,
	"SetMany":            SetMany,
	"HistoryOps":         HistoryOps,
	"HistoryNames":       HistoryNames,
	"HistoryMany":        HistoryMany,
	"HistoryLong":        HistoryLong,
	"HistoryOrphans":     HistoryOrphans,
	"SelectFind":         SelectFind,
	"SelectDelete":       SelectDelete,
	"SelectNames":        SelectNames,
	"SelectMany":         SelectMany,
	"SelectOrphans":      SelectOrphans,
	"SelectSubjects":     SelectSubjects,
	"PolicyOps":          PolicyOps,
	"PolicyMany":         PolicyMany,
	"PolicyOrphans":      PolicyOrphans,
	"PolicyIds":          PolicyIds,
	"PolicyBulk":         PolicyBulk,
	"PolicyNames":        PolicyNames,
	"PolicyRefs":         PolicyRefs,
	"PolicyRestrictions": PolicyRestrictions,
	"PolicyTrees":        PolicyTrees,
	"PolicySlash":        PolicySlash,
	"PolicyFlaw":         PolicyFlaw,
	"PolicySpelling":     PolicySpelling,
	"ParseBytes":         ParseBytes,
	"ParseForeign":       ParseForeign,
	"ParsePieces":        ParsePieces,
	"ParseLong":          ParseLong,
	"ParseAny":           ParseAny,
	"ParseDeep":          ParseDeep,
	"ParseStored":        ParseStored,
	"PrintLeaves":        PrintLeaves,
	"PrintTrees":         PrintTrees,
	"PrintDeep":          PrintDeep,
	"YamlTypes":          YamlTypes,
	"YamlShape":          YamlShape,
	"YamlEquals":         YamlEquals,
	"YamlTexts":          YamlTexts,
	"YamlEmpty":          YamlEmpty,
	"PartialReads":       PartialReads,
	"PartialWrites":      PartialWrites,
	"PartialPolicies":    PartialPolicies,
	"Crash":              Crash,
	"CrashMany":          CrashMany,
	"NodeIds":            NodeIds,
	"NodeLong":           NodeLong,
	"ExpandRec":          ExpandRec,
	"ExpandTTU":          ExpandTTU,
	"ExpandLeaf":         ExpandLeaf,
	"ExpandLarge":        ExpandLarge,
	"DumpShapes":         DumpShapes,
	"DumpText":           DumpText,
	"DumpStars":          DumpStars,
	"DumpLarge":          DumpLarge,
	"DumpOrphans":        DumpOrphans,
	"GraphOps":           GraphOps,
	"DiGraphDot":         DiGraphDot,
	"GraphText":          GraphText,
	"GraphLarge":         GraphLarge,
	"Parallel":           Parallel,
	"ParallelReads":      ParallelReads,
	"FaultWrites":        FaultWrites,
	"FaultReads":         FaultReads,
	"FaultRefused":       FaultRefused,
	"FaultMany":          FaultMany,
	"BuildMessages":      BuildMessages,
	"BuildTrees":         BuildTrees,
	"BuildSelectors":     BuildSelectors,
	"LookUp":             LookUp,
	"FreshAnswers":       FreshAnswers,
	"RestartedWrites":    RestartedWrites,
	"OwnMessages":        OwnMessages,
	"OwnReads":           OwnReads,
	"OwnPolicies":        OwnPolicies,
	"Instances":          Instances,
	"Directories":        Directories,
	"LeaveExpressions":   LeaveExpressions,
	"LeaveCalls":         LeaveCalls,
	"ProveRec":           ProveRec,
	"ProveTTU":           ProveTTU,
	"ProveOps":           ProveOps,
	"ProveLarge":         ProveLarge,
}
