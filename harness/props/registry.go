package props

// All maps harness names to harnesses; generated by tools/gen_registry.sh.
var All = map[string]func(){
	"B35_AlterTable":           B35_AlterTable,
	"B35_CreateTable":          B35_CreateTable,
	"B35_Delete":               B35_Delete,
	"B35_Index":                B35_Index,
	"B35_Insert":               B35_Insert,
	"B35_Many":                 B35_Many,
	"B35_Other":                B35_Other,
	"B35_Select":               B35_Select,
	"B35_SelectClauses":        B35_SelectClauses,
	"B35_SelectWhere":          B35_SelectWhere,
	"B35_Update":               B35_Update,
	"B35_Words":                B35_Words,
	"C36_Aggregates":           C36_Aggregates,
	"C36_AnyAggregate":         C36_AnyAggregate,
	"C36_AnyFunction":          C36_AnyFunction,
	"C36_Bind":                 C36_Bind,
	"C36_Functions":            C36_Functions,
	"C36_Parsers":              C36_Parsers,
	"C36_Read":                 C36_Read,
	"C36_Schema":               C36_Schema,
	"C36_Statement":            C36_Statement,
	"E31_Any":                  E31_Any,
	"E31_Counts":               E31_Counts,
	"E31_Kinds":                E31_Kinds,
	"E31_Long":                 E31_Long,
	"E31_Statements":           E31_Statements,
	"E32_AnyClass":             E32_AnyClass,
	"E32_AnyCode":              E32_AnyCode,
	"E32_Classes":              E32_Classes,
	"E32_Codes":                E32_Codes,
	"F19_After":                F19_After,
	"F19_Args":                 F19_Args,
	"F19_Columns":              F19_Columns,
	"F19_Count":                F19_Count,
	"F19_GroupArgs":            F19_GroupArgs,
	"F19_Kinds":                F19_Kinds,
	"F19_Kinds_Thorough":       F19_Kinds_Thorough,
	"F19_Many":                 F19_Many,
	"F19_Missing":              F19_Missing,
	"F19_More_Thorough":        F19_More_Thorough,
	"F19_Names":                F19_Names,
	"F19_Numbers":              F19_Numbers,
	"F19_OneSign":              F19_OneSign,
	"F19_Refused":              F19_Refused,
	"F19_RefusedColumns":       F19_RefusedColumns,
	"F19_Reset":                F19_Reset,
	"F19_Wide":                 F19_Wide,
	"F20_Args":                 F20_Args,
	"F20_BigKeys":              F20_BigKeys,
	"F20_Four_Thorough":        F20_Four_Thorough,
	"F20_Hundred":              F20_Hundred,
	"F20_Kept":                 F20_Kept,
	"F20_KeyKinds":             F20_KeyKinds,
	"F20_Keys":                 F20_Keys,
	"F20_Kinds":                F20_Kinds,
	"F20_LongKeys":             F20_LongKeys,
	"F20_Long_Thorough":        F20_Long_Thorough,
	"F20_Many":                 F20_Many,
	"F20_ManySorted":           F20_ManySorted,
	"F20_Nulls":                F20_Nulls,
	"F20_Numbers":              F20_Numbers,
	"F20_Pairs":                F20_Pairs,
	"F20_Pairs3":               F20_Pairs3,
	"F20_Pairs_Thorough":       F20_Pairs_Thorough,
	"F20_Refused":              F20_Refused,
	"F20_Regroup":              F20_Regroup,
	"F20_Reset":                F20_Reset,
	"F20_Reuse":                F20_Reuse,
	"F20_Sorted":               F20_Sorted,
	"F20_Sorted2":              F20_Sorted2,
	"F20_Sorted3":              F20_Sorted3,
	"F20_Tail":                 F20_Tail,
	"F20_Text":                 F20_Text,
	"F20_Triples":              F20_Triples,
	"F21_Grouped":              F21_Grouped,
	"F21_Many":                 F21_Many,
	"F21_More_Thorough":        F21_More_Thorough,
	"F21_Names":                F21_Names,
	"F21_Plain":                F21_Plain,
	"F21_Reset":                F21_Reset,
	"F21_ResetGroups":          F21_ResetGroups,
	"F21_Same":                 F21_Same,
	"F21_Three":                F21_Three,
	"F21_Three_Thorough":       F21_Three_Thorough,
	"F21_Wide":                 F21_Wide,
	"F22_Binary":               F22_Binary,
	"F22_Constants":            F22_Constants,
	"F22_Integers":             F22_Integers,
	"F22_Kinds":                F22_Kinds,
	"F22_Large":                F22_Large,
	"F22_NullColumn":           F22_NullColumn,
	"F22_Refused":              F22_Refused,
	"F22_Remainder":            F22_Remainder,
	"F22_Strings":              F22_Strings,
	"F22_Unary":                F22_Unary,
	"F22_Update":               F22_Update,
	"F23_Aggregates":           F23_Aggregates,
	"F23_Arguments":            F23_Arguments,
	"F23_Blanks":               F23_Blanks,
	"F23_Executors":            F23_Executors,
	"F23_LongerWords":          F23_LongerWords,
	"F23_Made":                 F23_Made,
	"F23_OddWords":             F23_OddWords,
	"F23_Registered":           F23_Registered,
	"F23_Rows":                 F23_Rows,
	"F23_Scalars":              F23_Scalars,
	"F23_Select":               F23_Select,
	"F23_SelectAggregators":    F23_SelectAggregators,
	"F23_Selectors":            F23_Selectors,
	"F23_ShortWords":           F23_ShortWords,
	"I27_Describe":             I27_Describe,
	"I27_Foreign":              I27_Foreign,
	"I27_Generate":             I27_Generate,
	"I27_Many":                 I27_Many,
	"I27_ManyTables":           I27_ManyTables,
	"I27_Names":                I27_Names,
	"I27_Other":                I27_Other,
	"I27_OtherWords":           I27_OtherWords,
	"I27_Tables":               I27_Tables,
	"I27_Understand":           I27_Understand,
	"I27_Words":                I27_Words,
	"K37_Constraints":          K37_Constraints,
	"K37_Limits":               K37_Limits,
	"K37_Literals":             K37_Literals,
	"K37_Operators":            K37_Operators,
	"K37_Order":                K37_Order,
	"K37_Orders":               K37_Orders,
	"K37_Parsed":               K37_Parsed,
	"K37_Statements":           K37_Statements,
	"N28_Apart":                N28_Apart,
	"N28_Close":                N28_Close,
	"N28_History":              N28_History,
	"N28_History_Thorough":     N28_History_Thorough,
	"N28_Identity":             N28_Identity,
	"N28_Many":                 N28_Many,
	"N28_Peers":                N28_Peers,
	"N28_Reasons":              N28_Reasons,
	"N29_Close":                N29_Close,
	"N29_Conn":                 N29_Conn,
	"N29_Manager":              N29_Manager,
	"N30_Close":                N30_Close,
	"N30_Many":                 N30_Many,
	"N30_Options":              N30_Options,
	"N30_Session":              N30_Session,
	"N30_Words":                N30_Words,
	"P01_Forms":                P01_Forms,
	"P01_Grammar":              P01_Grammar,
	"P01_OneTokenInserted":     P01_OneTokenInserted,
	"P01_OneTokenReplaced":     P01_OneTokenReplaced,
	"P01_ShortTail":            P01_ShortTail,
	"P01_ShortText":            P01_ShortText,
	"P01_Truncated":            P01_Truncated,
	"P02_AddUntyped":           P02_AddUntyped,
	"P02_AlterTable":           P02_AlterTable,
	"P02_BigNumbers":           P02_BigNumbers,
	"P02_Calls":                P02_Calls,
	"P02_ColumnTypes":          P02_ColumnTypes,
	"P02_Constraints":          P02_Constraints,
	"P02_CreateIndex":          P02_CreateIndex,
	"P02_CreateTable":          P02_CreateTable,
	"P02_Delete":               P02_Delete,
	"P02_DropIndex":            P02_DropIndex,
	"P02_Insert":               P02_Insert,
	"P02_KeysAnywhere":         P02_KeysAnywhere,
	"P02_Literals":             P02_Literals,
	"P02_LongNames":            P02_LongNames,
	"P02_Named":                P02_Named,
	"P02_Operands":             P02_Operands,
	"P02_Other":                P02_Other,
	"P02_Same":                 P02_Same,
	"P02_SelectAll":            P02_SelectAll,
	"P02_SelectForms":          P02_SelectForms,
	"P02_SelectFrom":           P02_SelectFrom,
	"P02_SelectLimit":          P02_SelectLimit,
	"P02_SelectList":           P02_SelectList,
	"P02_SelectOrder":          P02_SelectOrder,
	"P02_SelectWhere":          P02_SelectWhere,
	"P02_TxForms":              P02_TxForms,
	"P02_Update":               P02_Update,
	"P02_UpdateArithmetic":     P02_UpdateArithmetic,
	"P02_Wide":                 P02_Wide,
	"P02_Words":                P02_Words,
	"P03_AllClauses":           P03_AllClauses,
	"P03_BigNumbers":           P03_BigNumbers,
	"P03_Calls":                P03_Calls,
	"P03_Cases":                P03_Cases,
	"P03_Forms":                P03_Forms,
	"P03_Limit":                P03_Limit,
	"P03_Literals":             P03_Literals,
	"P03_LongNames":            P03_LongNames,
	"P03_NoTable":              P03_NoTable,
	"P03_OrderBy":              P03_OrderBy,
	"P03_Pairs":                P03_Pairs,
	"P03_Quoted":               P03_Quoted,
	"P03_Same":                 P03_Same,
	"P03_Selectors":            P03_Selectors,
	"P03_Tables":               P03_Tables,
	"P03_Where":                P03_Where,
	"P03_Wide":                 P03_Wide,
	"P03_Words":                P03_Words,
	"P04_Cases":                P04_Cases,
	"P04_InsertManyRows":       P04_InsertManyRows,
	"P04_InsertOneRow":         P04_InsertOneRow,
	"P04_Literals":             P04_Literals,
	"P04_LongNames":            P04_LongNames,
	"P04_Named":                P04_Named,
	"P04_NamedWide":            P04_NamedWide,
	"P04_Quoted":               P04_Quoted,
	"P04_Same":                 P04_Same,
	"P04_WideColumns":          P04_WideColumns,
	"P04_WideRows":             P04_WideRows,
	"P04_Words":                P04_Words,
	"P05_Accessors":            P05_Accessors,
	"P05_Cases":                P05_Cases,
	"P05_Literals":             P05_Literals,
	"P05_LongNames":            P05_LongNames,
	"P05_Mixed":                P05_Mixed,
	"P05_Operands":             P05_Operands,
	"P05_Pairs":                P05_Pairs,
	"P05_Quoted":               P05_Quoted,
	"P05_Same":                 P05_Same,
	"P05_UpdateArithmetic":     P05_UpdateArithmetic,
	"P05_UpdateSet":            P05_UpdateSet,
	"P05_UpdateWhere":          P05_UpdateWhere,
	"P05_UpdateWhereForms":     P05_UpdateWhereForms,
	"P05_Wide":                 P05_Wide,
	"P05_Words":                P05_Words,
	"P06_Accessors":            P06_Accessors,
	"P06_Cases":                P06_Cases,
	"P06_Delete":               P06_Delete,
	"P06_Literals":             P06_Literals,
	"P06_LongNames":            P06_LongNames,
	"P06_Pairs":                P06_Pairs,
	"P06_Quoted":               P06_Quoted,
	"P06_Same":                 P06_Same,
	"P06_Words":                P06_Words,
	"P07_BigSizes":             P07_BigSizes,
	"P07_Cases":                P07_Cases,
	"P07_ColumnTypes":          P07_ColumnTypes,
	"P07_Constraints":          P07_Constraints,
	"P07_Indexes":              P07_Indexes,
	"P07_Keys":                 P07_Keys,
	"P07_KeysAnywhere":         P07_KeysAnywhere,
	"P07_LongNames":            P07_LongNames,
	"P07_ManyColumns":          P07_ManyColumns,
	"P07_Quoted":               P07_Quoted,
	"P07_Same":                 P07_Same,
	"P07_Wide":                 P07_Wide,
	"P07_Words":                P07_Words,
	"P08_AddConstraints":       P08_AddConstraints,
	"P08_AddUntyped":           P08_AddUntyped,
	"P08_AlterTable":           P08_AlterTable,
	"P08_Cases":                P08_Cases,
	"P08_CreateIndex":          P08_CreateIndex,
	"P08_DropIndex":            P08_DropIndex,
	"P08_LongNames":            P08_LongNames,
	"P08_Quoted":               P08_Quoted,
	"P08_Same":                 P08_Same,
	"P08_WideIndex":            P08_WideIndex,
	"P08_Words":                P08_Words,
	"P09_Cases":                P09_Cases,
	"P09_CopySource":           P09_CopySource,
	"P09_LongNames":            P09_LongNames,
	"P09_Other":                P09_Other,
	"P09_Quoted":               P09_Quoted,
	"P09_Same":                 P09_Same,
	"P09_TxForms":              P09_TxForms,
	"P09_Vacuum":               P09_Vacuum,
	"P09_Wide":                 P09_Wide,
	"P09_Words":                P09_Words,
	"P10_AnyCharacters":        P10_AnyCharacters,
	"P10_Ends":                 P10_Ends,
	"P10_Escape":               P10_Escape,
	"P10_Long":                 P10_Long,
	"P10_Lookalikes":           P10_Lookalikes,
	"P10_ManyQuotes":           P10_ManyQuotes,
	"P10_PrintedStrings":       P10_PrintedStrings,
	"P10_StringValues":         P10_StringValues,
	"P10_Surrounded":           P10_Surrounded,
	"P10_TwoStrings":           P10_TwoStrings,
	"P10_Unescape":             P10_Unescape,
	"P11_AfterQuotes":          P11_AfterQuotes,
	"P11_Again":                P11_Again,
	"P11_AllKinds":             P11_AllKinds,
	"P11_Apart":                P11_Apart,
	"P11_Close":                P11_Close,
	"P11_Comments":             P11_Comments,
	"P11_Hundreds":             P11_Hundreds,
	"P11_Many":                 P11_Many,
	"P11_ManyNumbered":         P11_ManyNumbered,
	"P11_NoParams":             P11_NoParams,
	"P11_Order":                P11_Order,
	"P11_OtherPlaces":          P11_OtherPlaces,
	"P11_Places":               P11_Places,
	"P11_QuotedMarks":          P11_QuotedMarks,
	"P11_Signs":                P11_Signs,
	"P11_Statements":           P11_Statements,
	"P11_StringIsData":         P11_StringIsData,
	"P11_Times":                P11_Times,
	"P11_Unused":               P11_Unused,
	"P11_UnusedMany":           P11_UnusedMany,
	"P12_KeywordCase":          P12_KeywordCase,
	"P12_Layout":               P12_Layout,
	"P12_LongSequence":         P12_LongSequence,
	"P12_LongText":             P12_LongText,
	"P12_Pairs":                P12_Pairs,
	"P12_Same":                 P12_Same,
	"P12_Sequence":             P12_Sequence,
	"P13_EarlierResults":       P13_EarlierResults,
	"P13_ErrorAfterUse":        P13_ErrorAfterUse,
	"P13_Reuse":                P13_Reuse,
	"P14_Conditions":           P14_Conditions,
	"P14_InSequence":           P14_InSequence,
	"P14_LongSequence":         P14_LongSequence,
	"P14_Malformed":            P14_Malformed,
	"P14_MoreForms":            P14_MoreForms,
	"P14_Parts":                P14_Parts,
	"P14_Unsupported":          P14_Unsupported,
	"R24_Longer_Thorough":      R24_Longer_Thorough,
	"R24_Many":                 R24_Many,
	"R24_Maps":                 R24_Maps,
	"R24_More_Thorough":        R24_More_Thorough,
	"R24_Window":               R24_Window,
	"R25_Numbered":             R25_Numbered,
	"R25_Scan":                 R25_Scan,
	"R25_ScanAll":              R25_ScanAll,
	"R25_ShortValues":          R25_ShortValues,
	"R25_Views":                R25_Views,
	"R25_Wide":                 R25_Wide,
	"R25_Words":                R25_Words,
	"R26_All":                  R26_All,
	"R26_BadRow":               R26_BadRow,
	"R26_BadRowOfGroup":        R26_BadRowOfGroup,
	"R26_Groups":               R26_Groups,
	"R26_Groups3_Thorough":     R26_Groups3_Thorough,
	"R26_Many":                 R26_Many,
	"R26_Options":              R26_Options,
	"R26_Projection":           R26_Projection,
	"R26_UnknownColumn":        R26_UnknownColumn,
	"R38_Column":               R38_Column,
	"R38_Edges":                R38_Edges,
	"R38_Functions":            R38_Functions,
	"R38_Lookup":               R38_Lookup,
	"R38_Many":                 R38_Many,
	"R38_RowObject":            R38_RowObject,
	"R38_Selection":            R38_Selection,
	"S15_Alter":                S15_Alter,
	"S15_AlterLonger_Thorough": S15_AlterLonger_Thorough,
	"S15_Direct":               S15_Direct,
	"S15_Grow":                 S15_Grow,
	"S15_Independent":          S15_Independent,
	"S15_Longer_Thorough":      S15_Longer_Thorough,
	"S15_Many":                 S15_Many,
	"S15_Names":                S15_Names,
	"S15_Objects":              S15_Objects,
	"S15_Statements":           S15_Statements,
	"S15_Statements3_Thorough": S15_Statements3_Thorough,
	"S16_AnyNames":             S16_AnyNames,
	"S16_Asterisk":             S16_Asterisk,
	"S16_AsteriskNames":        S16_AsteriskNames,
	"S16_Copy":                 S16_Copy,
	"S16_CopyArguments":        S16_CopyArguments,
	"S16_LongNames":            S16_LongNames,
	"S16_Longer_Thorough":      S16_Longer_Thorough,
	"S16_Lookup":               S16_Lookup,
	"S16_Lookup3":              S16_Lookup3,
	"S16_Lookup4_Thorough":     S16_Lookup4_Thorough,
	"S16_Many":                 S16_Many,
	"S16_Position":             S16_Position,
	"S16_Words":                S16_Words,
	"S17_Booleans":             S17_Booleans,
	"S17_Float32Range":         S17_Float32Range,
	"S17_FloatRange":           S17_FloatRange,
	"S17_Floats":               S17_Floats,
	"S17_Insert":               S17_Insert,
	"S17_Integers":             S17_Integers,
	"S17_Long_Thorough":        S17_Long_Thorough,
	"S17_Many":                 S17_Many,
	"S17_NoTruth":              S17_NoTruth,
	"S17_NotANumber":           S17_NotANumber,
	"S17_Null":                 S17_Null,
	"S17_Text":                 S17_Text,
	"S17_TextBig":              S17_TextBig,
	"S17_TextBigEdge":          S17_TextBigEdge,
	"S17_TextFloat":            S17_TextFloat,
	"S17_TextFloat3_Thorough":  S17_TextFloat3_Thorough,
	"S17_TextInt":              S17_TextInt,
	"S17_TextRange":            S17_TextRange,
	"S17_Texts":                S17_Texts,
	"S17_UnknownColumn":        S17_UnknownColumn,
	"S18_Around":               S18_Around,
	"S18_Distinct":             S18_Distinct,
	"S18_Names":                S18_Names,
	"S18_Unknown":              S18_Unknown,
	"S18_Values":               S18_Values,
	"S33_FullName":             S33_FullName,
	"S33_Has":                  S33_Has,
	"S33_Lists":                S33_Lists,
	"S33_LongNames":            S33_LongNames,
	"S33_ManyTables":           S33_ManyTables,
	"S33_Names":                S33_Names,
	"S33_Words":                S33_Words,
	"U34_Deep":                 U34_Deep,
	"U34_History":              U34_History,
	"U34_Kinds":                U34_Kinds,
}
