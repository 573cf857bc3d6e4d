package props

import sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"

type stateSpec struct {
	c     sqlerrors.Code
	v     string
	descr string
}

type classSpec struct {
	c     sqlerrors.Class
	v     string
	descr string
}

// The error codes of Appendix A of the PostgreSQL documentation, which the
// library names as its source, with the constants that stand for them.
var sqlStates = []stateSpec{
	{sqlerrors.SuccessfulCompletion, "00000", "Successful Completion"},
	{sqlerrors.Warning, "01000", "Warning"},
	{sqlerrors.DynamicResultSetsReturned, "0100C", "Dynamic Result Sets Returned"},
	{sqlerrors.ImplicitZeroBitPadding, "01008", "Implicit Zero Bit Padding"},
	{sqlerrors.NullValueEliminatedInSetFunction, "01003", "Null Value Eliminated In Set Function"},
	{sqlerrors.PrivilegeNotGranted, "01007", "Privilege Not Granted"},
	{sqlerrors.PrivilegeNotRevoked, "01006", "Privilege Not Revoked"},
	{sqlerrors.StringDataRightTruncationWarning, "01004", "String Data Right Truncation Warning"},
	{sqlerrors.DeprecatedFeature, "01P01", "Deprecated Feature"},
	{sqlerrors.NoData, "02000", "No Data"},
	{sqlerrors.NoAdditionalDynamicResultSetsReturned, "02001", "No Additional Dynamic Result Sets Returned"},
	{sqlerrors.SQLStatementNotYetComplete, "03000", "SQL Statement Not Yet Complete"},
	{sqlerrors.ConnectionException, "08000", "Connection Exception"},
	{sqlerrors.ConnectionDoesNotExist, "08003", "Connection Does Not Exist"},
	{sqlerrors.ConnectionFailure, "08006", "Connection Failure"},
	{sqlerrors.SQLClientUnableToEstablishSQLConnection, "08001", "SQL Client Unable To Establish SQL Connection"},
	{sqlerrors.SQLServerRejectedEstablishmentOfSQLConnection, "08004", "SQL Server Rejected Establishment Of SQL Connection"},
	{sqlerrors.TransactionResolutionUnknown, "08007", "Transaction Resolution Unknown"},
	{sqlerrors.ProtocolViolation, "08P01", "Protocol Violation"},
	{sqlerrors.TriggeredActionException, "09000", "Triggered Action Exception"},
	{sqlerrors.FeatureNotSupported, "0A000", "Feature Not Supported"},
	{sqlerrors.InvalidTransactionInitiation, "0B000", "Invalid Transaction Initiation"},
	{sqlerrors.LocatorException, "0F000", "Locator Exception"},
	{sqlerrors.InvalidLocatorSpecification, "0F001", "Invalid Locator Specification"},
	{sqlerrors.InvalidGrantor, "0L000", "Invalid Grantor"},
	{sqlerrors.InvalidGrantOperation, "0LP01", "Invalid Grant Operation"},
	{sqlerrors.InvalidRoleSpecification, "0P000", "Invalid Role Specification"},
	{sqlerrors.DiagnosticsException, "0Z000", "Diagnostics Exception"},
	{sqlerrors.StackedDiagnosticsAccessedWithoutActiveHandler, "0Z002", "Stacked Diagnostics Accessed Without Active Handler"},
	{sqlerrors.CaseNotFound, "20000", "Case Not Found"},
	{sqlerrors.CardinalityViolation, "21000", "Cardinality Violation"},
	{sqlerrors.DataException, "22000", "Data Exception"},
	{sqlerrors.ArraySubscriptError, "2202E", "Array Subscript Error"},
	{sqlerrors.CharacterNotInRepertoire, "22021", "Character Not In Repertoire"},
	{sqlerrors.DatetimeFieldOverflow, "22008", "Datetime Field Overflow"},
	{sqlerrors.DivisionByZero, "22012", "Division By Zero"},
	{sqlerrors.ErrorInAssignment, "22005", "Error In Assignment"},
	{sqlerrors.EscapeCharacterConflict, "2200B", "Escape Character Conflict"},
	{sqlerrors.IndicatorOverflow, "22022", "Indicator Overflow"},
	{sqlerrors.IntervalFieldOverflow, "22015", "Interval Field Overflow"},
	{sqlerrors.InvalidArgumentForLogarithm, "2201E", "Invalid Argument For Logarithm"},
	{sqlerrors.InvalidArgumentForNtileFunction, "22014", "Invalid Argument For Ntile Function"},
	{sqlerrors.InvalidArgumentForNthValueFunction, "22016", "Invalid Argument For Nth Value Function"},
	{sqlerrors.InvalidArgumentForPowerFunction, "2201F", "Invalid Argument For Power Function"},
	{sqlerrors.InvalidArgumentForWidthBucketFunction, "2201G", "Invalid Argument For Width Bucket Function"},
	{sqlerrors.InvalidCharacterValueForCast, "22018", "Invalid Character Value For Cast"},
	{sqlerrors.InvalidDatetimeFormat, "22007", "Invalid Datetime Format"},
	{sqlerrors.InvalidEscapeCharacter, "22019", "Invalid Escape Character"},
	{sqlerrors.InvalidEscapeOctet, "2200D", "Invalid Escape Octet"},
	{sqlerrors.InvalidEscapeSequence, "22025", "Invalid Escape Sequence"},
	{sqlerrors.NonstandardUseOfEscapeCharacter, "22P06", "Nonstandard Use Of Escape Character"},
	{sqlerrors.InvalidIndicatorParameterValue, "22010", "Invalid Indicator Parameter Value"},
	{sqlerrors.InvalidParameterValue, "22023", "Invalid Parameter Value"},
	{sqlerrors.InvalidPrecedingOrFollowingSize, "22013", "Invalid Preceding Or Following Size"},
	{sqlerrors.InvalidRegularExpression, "2201B", "Invalid Regular Expression"},
	{sqlerrors.InvalidRowCountInLimitClause, "2201W", "Invalid Row Count In Limit Clause"},
	{sqlerrors.InvalidRowCountInResultOffsetClause, "2201X", "Invalid Row Count In Result Offset Clause"},
	{sqlerrors.InvalidTablesampleArgument, "2202H", "Invalid Tablesample Argument"},
	{sqlerrors.InvalidTablesampleRepeat, "2202G", "Invalid Tablesample Repeat"},
	{sqlerrors.InvalidTimeZoneDisplacementValue, "22009", "Invalid Time Zone Displacement Value"},
	{sqlerrors.InvalidUseOfEscapeCharacter, "2200C", "Invalid Use Of Escape Character"},
	{sqlerrors.MostSpecificTypeMismatch, "2200G", "Most Specific Type Mismatch"},
	{sqlerrors.NullDataValueNotAllowed, "22004", "Null Data Value Not Allowed"},
	{sqlerrors.NullDataValueNoIndicatorParameter, "22002", "Null Data Value No Indicator Parameter"},
	{sqlerrors.NumericValueOutOfRange, "22003", "Numeric Value Out Of Range"},
	{sqlerrors.SequenceGeneratorLimitExceeded, "2200H", "Sequence Generator Limit Exceeded"},
	{sqlerrors.StringDataLengthMismatch, "22026", "String Data Length Mismatch"},
	{sqlerrors.StringDataRightTruncation, "22001", "String Data Right Truncation"},
	{sqlerrors.SubstringError, "22011", "Substring Error"},
	{sqlerrors.TrimError, "22027", "Trim Error"},
	{sqlerrors.UnterminatedCString, "22024", "Unterminated C String"},
	{sqlerrors.ZeroLengthCharacterString, "2200F", "Zero Length Character String"},
	{sqlerrors.FloatingPointException, "22P01", "Floating Point Exception"},
	{sqlerrors.InvalidTextRepresentation, "22P02", "Invalid Text Representation"},
	{sqlerrors.InvalidBinaryRepresentation, "22P03", "Invalid Binary Representation"},
	{sqlerrors.BadCopyFileFormat, "22P04", "Bad Copy File Format"},
	{sqlerrors.UntranslatableCharacter, "22P05", "Untranslatable Character"},
	{sqlerrors.NotAnXMLDocument, "2200L", "Not An XML Document"},
	{sqlerrors.InvalidXMLDocument, "2200M", "Invalid XML Document"},
	{sqlerrors.InvalidXMLContent, "2200N", "Invalid XML Content"},
	{sqlerrors.InvalidXMLComment, "2200S", "Invalid XML Comment"},
	{sqlerrors.InvalidXMLProcessingInstruction, "2200T", "Invalid XML Processing Instruction"},
	{sqlerrors.DuplicateJSONObjectKeyValue, "22030", "Duplicate JSON Object Key Value"},
	{sqlerrors.InvalidArgumentForSQLJSONDatetimeFunction, "22031", "Invalid Argument For SQL/JSON Datetime Function"},
	{sqlerrors.InvalidJSONText, "22032", "Invalid JSON Text"},
	{sqlerrors.InvalidSQLJSONSubscript, "22033", "Invalid SQL/JSON Subscript"},
	{sqlerrors.MoreThanOneSQLJSONItem, "22034", "More Than One SQL/JSON Item"},
	{sqlerrors.NoSQLJSONItem, "22035", "No SQL/JSON Item"},
	{sqlerrors.NonNumericSQLJSONItem, "22036", "Non Numeric SQL/JSON Item"},
	{sqlerrors.NonUniqueKeysInAJSONObject, "22037", "Non Unique Keys In A JSON Object"},
	{sqlerrors.SingletonSQLJSONItemRequired, "22038", "Singleton SQL/JSON Item Required"},
	{sqlerrors.SQLJSONArrayNotFound, "22039", "SQL/JSON Array Not Found"},
	{sqlerrors.SQLJSONMemberNotFound, "2203A", "SQL/JSON Member Not Found"},
	{sqlerrors.SQLJSONNumberNotFound, "2203B", "SQL/JSON Number Not Found"},
	{sqlerrors.SQLJSONObjectNotFound, "2203C", "SQL/JSON Object Not Found"},
	{sqlerrors.TooManyJSONArrayElements, "2203D", "Too Many JSON Array Elements"},
	{sqlerrors.TooManyJSONObjectMembers, "2203E", "Too Many JSON Object Members"},
	{sqlerrors.SQLJSONScalarRequired, "2203F", "SQL/JSON Scalar Required"},
	{sqlerrors.SQLJSONItemCannotBeCastToTargetType, "2203G", "SQL/JSON Item Cannot Be Cast To Target Type"},
	{sqlerrors.IntegrityConstraintViolation, "23000", "Integrity Constraint Violation"},
	{sqlerrors.RestrictViolation, "23001", "Restrict Violation"},
	{sqlerrors.NotNullViolation, "23502", "Not Null Violation"},
	{sqlerrors.ForeignKeyViolation, "23503", "Foreign Key Violation"},
	{sqlerrors.UniqueViolation, "23505", "Unique Violation"},
	{sqlerrors.CheckViolation, "23514", "Check Violation"},
	{sqlerrors.ExclusionViolation, "23P01", "Exclusion Violation"},
	{sqlerrors.InvalidCursorState, "24000", "Invalid Cursor State"},
	{sqlerrors.InvalidTransactionState, "25000", "Invalid Transaction State"},
	{sqlerrors.ActiveSQLTransaction, "25001", "Active SQL Transaction"},
	{sqlerrors.BranchTransactionAlreadyActive, "25002", "Branch Transaction Already Active"},
	{sqlerrors.HeldCursorRequiresSameIsolationLevel, "25008", "Held Cursor Requires Same Isolation Level"},
	{sqlerrors.InappropriateAccessModeForBranchTransaction, "25003", "Inappropriate Access Mode For Branch Transaction"},
	{sqlerrors.InappropriateIsolationLevelForBranchTransaction, "25004", "Inappropriate Isolation Level For Branch Transaction"},
	{sqlerrors.NoActiveSQLTransactionForBranchTransaction, "25005", "No Active SQL Transaction For Branch Transaction"},
	{sqlerrors.ReadOnlySQLTransaction, "25006", "Read Only SQL Transaction"},
	{sqlerrors.SchemaAndDataStatementMixingNotSupported, "25007", "Schema And Data Statement Mixing Not Supported"},
	{sqlerrors.NoActiveSQLTransaction, "25P01", "No Active SQL Transaction"},
	{sqlerrors.InFailedSQLTransaction, "25P02", "In Failed SQL Transaction"},
	{sqlerrors.IdleInTransactionSessionTimeout, "25P03", "Idle In Transaction Session Timeout"},
	{sqlerrors.TransactionTimeout, "25P04", "Transaction Timeout"},
	{sqlerrors.InvalidSQLStatementName, "26000", "Invalid SQL Statement Name"},
	{sqlerrors.TriggeredDataChangeViolation, "27000", "Triggered Data Change Violation"},
	{sqlerrors.InvalidAuthorizationSpecification, "28000", "Invalid Authorization Specification"},
	{sqlerrors.InvalidPassword, "28P01", "Invalid Password"},
	{sqlerrors.DependentPrivilegeDescriptorsStillExist, "2B000", "Dependent Privilege Descriptors Still Exist"},
	{sqlerrors.DependentObjectsStillExist, "2BP01", "Dependent Objects Still Exist"},
	{sqlerrors.InvalidTransactionTermination, "2D000", "Invalid Transaction Termination"},
	{sqlerrors.SQLRoutineException, "2F000", "SQL Routine Exception"},
	{sqlerrors.FunctionExecutedNoReturnStatement, "2F005", "Function Executed No Return Statement"},
	{sqlerrors.SQLRoutineModifyingSQLDataNotPermitted, "2F002", "SQL Routine Modifying SQL Data Not Permitted"},
	{sqlerrors.SQLRoutineProhibitedSQLStatementAttempted, "2F003", "SQL Routine Prohibited SQL Statement Attempted"},
	{sqlerrors.SQLRoutineReadingSQLDataNotPermitted, "2F004", "SQL Routine Reading SQL Data Not Permitted"},
	{sqlerrors.InvalidCursorName, "34000", "Invalid Cursor Name"},
	{sqlerrors.ExternalRoutineException, "38000", "External Routine Exception"},
	{sqlerrors.ContainingSQLNotPermitted, "38001", "Containing SQL Not Permitted"},
	{sqlerrors.ExternalRoutineModifyingSQLDataNotPermitted, "38002", "External Routine Modifying SQL Data Not Permitted"},
	{sqlerrors.ExternalRoutineProhibitedSQLStatementAttempted, "38003", "External Routine Prohibited SQL Statement Attempted"},
	{sqlerrors.ExternalRoutineReadingSQLDataNotPermitted, "38004", "External Routine Reading SQL Data Not Permitted"},
	{sqlerrors.ExternalRoutineInvocationException, "39000", "External Routine Invocation Exception"},
	{sqlerrors.InvalidSQLStateReturned, "39001", "Invalid SQL State Returned"},
	{sqlerrors.NullValueNotAllowed, "39004", "Null Value Not Allowed"},
	{sqlerrors.TriggerProtocolViolated, "39P01", "Trigger Protocol Violated"},
	{sqlerrors.SRFProtocolViolated, "39P02", "SRF Protocol Violated"},
	{sqlerrors.EventTriggerProtocolViolated, "39P03", "Event Trigger Protocol Violated"},
	{sqlerrors.SavepointException, "3B000", "Savepoint Exception"},
	{sqlerrors.InvalidSavepointSpecification, "3B001", "Invalid Savepoint Specification"},
	{sqlerrors.InvalidCatalogName, "3D000", "Invalid Catalog Name"},
	{sqlerrors.InvalidSchemaName, "3F000", "Invalid Schema Name"},
	{sqlerrors.TransactionRollback, "40000", "Transaction Rollback"},
	{sqlerrors.TransactionIntegrityConstraintViolation, "40002", "Transaction Integrity Constraint Violation"},
	{sqlerrors.SerializationFailure, "40001", "Serialization Failure"},
	{sqlerrors.StatementCompletionUnknown, "40003", "Statement Completion Unknown"},
	{sqlerrors.DeadlockDetected, "40P01", "Deadlock Detected"},
	{sqlerrors.SyntaxErrorOrAccessRuleViolation, "42000", "Syntax Error Or Access Rule Violation"},
	{sqlerrors.SyntaxError, "42601", "Syntax Error"},
	{sqlerrors.InsufficientPrivilege, "42501", "Insufficient Privilege"},
	{sqlerrors.CannotCoerce, "42846", "Cannot Coerce"},
	{sqlerrors.GroupingError, "42803", "Grouping Error"},
	{sqlerrors.WindowingError, "42P20", "Windowing Error"},
	{sqlerrors.InvalidRecursion, "42P19", "Invalid Recursion"},
	{sqlerrors.InvalidForeignKey, "42830", "Invalid Foreign Key"},
	{sqlerrors.InvalidName, "42602", "Invalid Name"},
	{sqlerrors.NameTooLong, "42622", "Name Too Long"},
	{sqlerrors.ReservedName, "42939", "Reserved Name"},
	{sqlerrors.DatatypeMismatch, "42804", "Datatype Mismatch"},
	{sqlerrors.IndeterminateDatatype, "42P18", "Indeterminate Datatype"},
	{sqlerrors.CollationMismatch, "42P21", "Collation Mismatch"},
	{sqlerrors.IndeterminateCollation, "42P22", "Indeterminate Collation"},
	{sqlerrors.WrongObjectType, "42809", "Wrong Object Type"},
	{sqlerrors.GeneratedAlways, "428C9", "Generated Always"},
	{sqlerrors.UndefinedColumn, "42703", "Undefined Column"},
	{sqlerrors.UndefinedFunction, "42883", "Undefined Function"},
	{sqlerrors.UndefinedTable, "42P01", "Undefined Table"},
	{sqlerrors.UndefinedParameter, "42P02", "Undefined Parameter"},
	{sqlerrors.UndefinedObject, "42704", "Undefined Object"},
	{sqlerrors.DuplicateColumn, "42701", "Duplicate Column"},
	{sqlerrors.DuplicateCursor, "42P03", "Duplicate Cursor"},
	{sqlerrors.DuplicateDatabase, "42P04", "Duplicate Database"},
	{sqlerrors.DuplicateFunction, "42723", "Duplicate Function"},
	{sqlerrors.DuplicatePreparedStatement, "42P05", "Duplicate Prepared Statement"},
	{sqlerrors.DuplicateSchema, "42P06", "Duplicate Schema"},
	{sqlerrors.DuplicateTable, "42P07", "Duplicate Table"},
	{sqlerrors.DuplicateAlias, "42712", "Duplicate Alias"},
	{sqlerrors.DuplicateObject, "42710", "Duplicate Object"},
	{sqlerrors.AmbiguousColumn, "42702", "Ambiguous Column"},
	{sqlerrors.AmbiguousFunction, "42725", "Ambiguous Function"},
	{sqlerrors.AmbiguousParameter, "42P08", "Ambiguous Parameter"},
	{sqlerrors.AmbiguousAlias, "42P09", "Ambiguous Alias"},
	{sqlerrors.InvalidColumnReference, "42P10", "Invalid Column Reference"},
	{sqlerrors.InvalidColumnDefinition, "42611", "Invalid Column Definition"},
	{sqlerrors.InvalidCursorDefinition, "42P11", "Invalid Cursor Definition"},
	{sqlerrors.InvalidDatabaseDefinition, "42P12", "Invalid Database Definition"},
	{sqlerrors.InvalidFunctionDefinition, "42P13", "Invalid Function Definition"},
	{sqlerrors.InvalidPreparedStatementDefinition, "42P14", "Invalid Prepared Statement Definition"},
	{sqlerrors.InvalidSchemaDefinition, "42P15", "Invalid Schema Definition"},
	{sqlerrors.InvalidTableDefinition, "42P16", "Invalid Table Definition"},
	{sqlerrors.InvalidObjectDefinition, "42P17", "Invalid Object Definition"},
	{sqlerrors.WithCheckOptionViolation, "44000", "With Check Option Violation"},
	{sqlerrors.InsufficientResources, "53000", "Insufficient Resources"},
	{sqlerrors.DiskFull, "53100", "Disk Full"},
	{sqlerrors.OutOfMemory, "53200", "Out Of Memory"},
	{sqlerrors.TooManyConnections, "53300", "Too Many Connections"},
	{sqlerrors.ConfigurationLimitExceeded, "53400", "Configuration Limit Exceeded"},
	{sqlerrors.ProgramLimitExceeded, "54000", "Program Limit Exceeded"},
	{sqlerrors.StatementTooComplex, "54001", "Statement Too Complex"},
	{sqlerrors.TooManyColumns, "54011", "Too Many Columns"},
	{sqlerrors.TooManyArguments, "54023", "Too Many Arguments"},
	{sqlerrors.ObjectNotInPrerequisiteState, "55000", "Object Not In Prerequisite State"},
	{sqlerrors.ObjectInUse, "55006", "Object In Use"},
	{sqlerrors.CantChangeRuntimeParam, "55P02", "Can't Change Runtime Param"},
	{sqlerrors.LockNotAvailable, "55P03", "Lock Not Available"},
	{sqlerrors.UnsafeNewEnumValueUsage, "55P04", "Unsafe New Enum Value Usage"},
	{sqlerrors.OperatorIntervention, "57000", "Operator Intervention"},
	{sqlerrors.QueryCanceled, "57014", "Query Canceled"},
	{sqlerrors.AdminShutdown, "57P01", "Admin Shutdown"},
	{sqlerrors.CrashShutdown, "57P02", "Crash Shutdown"},
	{sqlerrors.CannotConnectNow, "57P03", "Cannot Connect Now"},
	{sqlerrors.DatabaseDropped, "57P04", "Database Dropped"},
	{sqlerrors.IdleSessionTimeout, "57P05", "Idle Session Timeout"},
	{sqlerrors.SystemError, "58000", "System Error"},
	{sqlerrors.IOError, "58030", "IO Error"},
	{sqlerrors.UndefinedFile, "58P01", "Undefined File"},
	{sqlerrors.DuplicateFile, "58P02", "Duplicate File"},
	{sqlerrors.ConfigFileError, "F0000", "Config File Error"},
	{sqlerrors.LockFileExists, "F0001", "Lock File Exists"},
	{sqlerrors.FDWError, "HV000", "FDW Error"},
	{sqlerrors.FDWColumnNameNotFound, "HV005", "FDW Column Name Not Found"},
	{sqlerrors.FDWDynamicParameterValueNeeded, "HV002", "FDW Dynamic Parameter Value Needed"},
	{sqlerrors.FDWFunctionSequenceError, "HV010", "FDW Function Sequence Error"},
	{sqlerrors.FDWInconsistentDescriptorInformation, "HV021", "FDW Inconsistent Descriptor Information"},
	{sqlerrors.FDWInvalidAttributeValue, "HV024", "FDW Invalid Attribute Value"},
	{sqlerrors.FDWInvalidColumnName, "HV007", "FDW Invalid Column Name"},
	{sqlerrors.FDWInvalidColumnNumber, "HV008", "FDW Invalid Column Number"},
	{sqlerrors.FDWInvalidDataType, "HV004", "FDW Invalid Data Type"},
	{sqlerrors.FDWInvalidDataTypeDescriptors, "HV006", "FDW Invalid Data Type Descriptors"},
	{sqlerrors.FDWInvalidDescriptorFieldIdentifier, "HV091", "FDW Invalid Descriptor Field Identifier"},
	{sqlerrors.FDWInvalidHandle, "HV00B", "FDW Invalid Handle"},
	{sqlerrors.FDWInvalidOptionIndex, "HV00C", "FDW Invalid Option Index"},
	{sqlerrors.FDWInvalidOptionName, "HV00D", "FDW Invalid Option Name"},
	{sqlerrors.FDWInvalidStringLength, "HV090", "FDW Invalid String Length"},
	{sqlerrors.FDWInvalidStringFormat, "HV00A", "FDW Invalid String Format"},
	{sqlerrors.FDWInvalidUseOfNullPointer, "HV009", "FDW Invalid Use Of Null Pointer"},
	{sqlerrors.FDWTooManyHandles, "HV014", "FDW Too Many Handles"},
	{sqlerrors.FDWOutOfMemory, "HV001", "FDW Out Of Memory"},
	{sqlerrors.FDWNoSchemas, "HV00P", "FDW No Schemas"},
	{sqlerrors.FDWOptionNameNotFound, "HV00J", "FDW Option Name Not Found"},
	{sqlerrors.FDWReplyHandle, "HV00K", "FDW Reply Handle"},
	{sqlerrors.FDWSchemaNotFound, "HV00Q", "FDW Schema Not Found"},
	{sqlerrors.FDWTableNotFound, "HV00R", "FDW Table Not Found"},
	{sqlerrors.FDWUnableToCreateExecution, "HV00L", "FDW Unable To Create Execution"},
	{sqlerrors.FDWUnableToCreateReply, "HV00M", "FDW Unable To Create Reply"},
	{sqlerrors.FDWUnableToEstablishConnection, "HV00N", "FDW Unable To Establish Connection"},
	{sqlerrors.PLPGSQLError, "P0000", "PL/PGSQL Error"},
	{sqlerrors.RaiseException, "P0001", "Raise Exception"},
	{sqlerrors.NoDataFound, "P0002", "No Data Found"},
	{sqlerrors.TooManyRows, "P0003", "Too Many Rows"},
	{sqlerrors.AssertFailure, "P0004", "Assert Failure"},
	{sqlerrors.InternalError, "XX000", "Internal Error"},
	{sqlerrors.DataCorrupted, "XX001", "Data Corrupted"},
	{sqlerrors.IndexCorrupted, "XX002", "Index Corrupted"},
}

var sqlClasses = []classSpec{
	{sqlerrors.Class00, "00", "Successful Completion"},
	{sqlerrors.Class01, "01", "Warning"},
	{sqlerrors.Class02, "02", "No Data"},
	{sqlerrors.Class03, "03", "SQL Statement Not Yet Complete"},
	{sqlerrors.Class08, "08", "Connection Exception"},
	{sqlerrors.Class09, "09", "Triggered Action Exception"},
	{sqlerrors.Class0A, "0A", "Feature Not Supported"},
	{sqlerrors.Class0B, "0B", "Invalid Transaction Initiation"},
	{sqlerrors.Class0F, "0F", "Locator Exception"},
	{sqlerrors.Class0L, "0L", "Invalid Grantor"},
	{sqlerrors.Class0P, "0P", "Invalid Role Specification"},
	{sqlerrors.Class0Z, "0Z", "Diagnostics Exception"},
	{sqlerrors.Class20, "20", "Case Not Found"},
	{sqlerrors.Class21, "21", "Cardinality Violation"},
	{sqlerrors.Class22, "22", "Data Exception"},
	{sqlerrors.Class23, "23", "Integrity Constraint Violation"},
	{sqlerrors.Class24, "24", "Invalid Cursor State"},
	{sqlerrors.Class25, "25", "Invalid Transaction State"},
	{sqlerrors.Class26, "26", "Invalid SQL Statement Name"},
	{sqlerrors.Class27, "27", "Triggered Data Change Violation"},
	{sqlerrors.Class28, "28", "Invalid Authorization Specification"},
	{sqlerrors.Class2B, "2B", "Dependent Privilege Descriptors Still Exist"},
	{sqlerrors.Class2D, "2D", "Invalid Transaction Termination"},
	{sqlerrors.Class2F, "2F", "SQL Routine Exception"},
	{sqlerrors.Class34, "34", "Invalid Cursor Name"},
	{sqlerrors.Class38, "38", "External Routine Exception"},
	{sqlerrors.Class39, "39", "External Routine Invocation Exception"},
	{sqlerrors.Class3B, "3B", "Savepoint Exception"},
	{sqlerrors.Class3D, "3D", "Invalid Catalog Name"},
	{sqlerrors.Class3F, "3F", "Invalid Schema Name"},
	{sqlerrors.Class40, "40", "Transaction Rollback"},
	{sqlerrors.Class42, "42", "Syntax Error or Access Rule Violation"},
	{sqlerrors.Class44, "44", "WITH CHECK OPTION Violation"},
	{sqlerrors.Class53, "53", "Insufficient Resources"},
	{sqlerrors.Class54, "54", "Program Limit Exceeded"},
	{sqlerrors.Class55, "55", "Object Not In Prerequisite State"},
	{sqlerrors.Class57, "57", "Operator Intervention"},
	{sqlerrors.Class58, "58", "System Error"},
	{sqlerrors.ClassF0, "F0", "Configuration File Error"},
	{sqlerrors.ClassHV, "HV", "Foreign Data Wrapper Error (SQL/MED)"},
	{sqlerrors.ClassP0, "P0", "PL/pgSQL Error"},
	{sqlerrors.ClassXX, "XX", "Internal Error"},
}
