----------------------------- MODULE Interface -----------------------------
(* The interface the library documents: which functions and function blocks   *)
(* exist, which of them the structured text declares external (so that the   *)
(* library must export them), and for which types each generic one is        *)
(* available. What they do is specified elsewhere.                           *)
FunctionBlocks == {
  "CTD", "CTD_DINT", "CTD_INT", "CTD_LINT", "CTD_UDINT", "CTD_ULINT", "CTU", "CTUD", "CTUD_DINT", "CTUD_INT",
  "CTUD_LINT", "CTUD_UDINT", "CTUD_ULINT", "CTU_DINT", "CTU_INT", "CTU_LINT", "CTU_UDINT", "CTU_ULINT", "F_TRIG",
  "RS", "R_TRIG", "SR", "TOF", "TOF_LTIME", "TOF_TIME", "TON", "TON_LTIME", "TON_TIME", "TP", "TP_LTIME", "TP_TIME" }
Functions == {
  "ABS__DINT", "ABS__INT", "ABS__LINT", "ABS__LREAL", "ABS__REAL", "ABS__SINT", "ADD_DT_TIME", "ADD_LDT_LTIME",
  "ADD_LTIME", "ADD_LTOD_LTIME", "ADD_TIME", "ADD_TOD_TIME", "ADD__DATE_AND_TIME__TIME", "ADD__TIME_OF_DAY__TIME",
  "ADD__TIME__TIME", "BOOL_TO_BYTE", "BOOL_TO_DINT", "BOOL_TO_DWORD", "BOOL_TO_INT", "BOOL_TO_LINT", "BOOL_TO_LWORD",
  "BOOL_TO_SINT", "BOOL_TO_UDINT", "BOOL_TO_UINT", "BOOL_TO_ULINT", "BOOL_TO_USINT", "BOOL_TO_WORD", "BYTE_TO_BOOL",
  "BYTE_TO_CHAR", "BYTE_TO_DINT", "BYTE_TO_DWORD", "BYTE_TO_INT", "BYTE_TO_LINT", "BYTE_TO_LWORD", "BYTE_TO_SINT",
  "BYTE_TO_STRING", "BYTE_TO_STRING_EXT", "BYTE_TO_UDINT", "BYTE_TO_UINT", "BYTE_TO_ULINT", "BYTE_TO_USINT",
  "BYTE_TO_WORD", "BYTE_TO_WSTRING", "CHAR_TO_BYTE", "CHAR_TO_DWORD", "CHAR_TO_LWORD", "CHAR_TO_STRING",
  "CHAR_TO_WCHAR", "CHAR_TO_WORD", "CONCAT_DATE_LTOD", "CONCAT_DATE_TOD", "CONCAT_DT__DINT", "CONCAT_DT__INT",
  "CONCAT_DT__LINT", "CONCAT_DT__UDINT", "CONCAT_DT__UINT", "CONCAT_DT__ULINT", "CONCAT_LDT__DINT",
  "CONCAT_LDT__INT", "CONCAT_LDT__LINT", "CONCAT_LDT__UDINT", "CONCAT_LDT__UINT", "CONCAT_LDT__ULINT",
  "CONCAT_LTOD__DINT", "CONCAT_LTOD__INT", "CONCAT_LTOD__LINT", "CONCAT_LTOD__SINT", "CONCAT_LTOD__UDINT",
  "CONCAT_LTOD__UINT", "CONCAT_LTOD__ULINT", "CONCAT_LTOD__USINT", "CONCAT__STRING", "CONCAT__WSTRING",
  "DATE_AND_TIME_TO_DATE", "DATE_AND_TIME_TO_TIME_OF_DAY", "DATE_TO_LINT", "DATE_TO_LWORD", "DATE_TO_STRING",
  "DATE_TO_STRING_EXT", "DATE_TO_ULINT", "DATE_TO_WSTRING", "DAY_OF_WEEK", "DELETE_EXT__STRING",
  "DELETE_EXT__WSTRING", "DELETE__STRING", "DELETE__WSTRING", "DINT_TO_BOOL", "DINT_TO_BYTE", "DINT_TO_DWORD",
  "DINT_TO_INT", "DINT_TO_LINT", "DINT_TO_LREAL", "DINT_TO_LWORD", "DINT_TO_REAL", "DINT_TO_SINT", "DINT_TO_STRING",
  "DINT_TO_UDINT", "DINT_TO_UINT", "DINT_TO_ULINT", "DINT_TO_USINT", "DINT_TO_WORD", "DINT_TO_WSTRING", "DT_TO_DATE",
  "DT_TO_LDT", "DT_TO_LINT", "DT_TO_LTOD", "DT_TO_LWORD", "DT_TO_STRING", "DT_TO_STRING_EXT", "DT_TO_TOD",
  "DT_TO_ULINT", "DT_TO_WSTRING", "DWORD_TO_BOOL", "DWORD_TO_BYTE", "DWORD_TO_DINT", "DWORD_TO_INT", "DWORD_TO_LINT",
  "DWORD_TO_LWORD", "DWORD_TO_REAL", "DWORD_TO_SINT", "DWORD_TO_STRING", "DWORD_TO_UDINT", "DWORD_TO_UINT",
  "DWORD_TO_ULINT", "DWORD_TO_USINT", "DWORD_TO_WORD", "DWORD_TO_WSTRING", "EXPT__LREAL__DINT", "EXPT__LREAL__INT",
  "EXPT__LREAL__LINT", "EXPT__LREAL__LREAL", "EXPT__LREAL__REAL", "EXPT__LREAL__SINT", "EXPT__LREAL__UDINT",
  "EXPT__LREAL__UINT", "EXPT__LREAL__ULINT", "EXPT__LREAL__USINT", "EXPT__REAL__DINT", "EXPT__REAL__INT",
  "EXPT__REAL__LINT", "EXPT__REAL__LREAL", "EXPT__REAL__REAL", "EXPT__REAL__SINT", "EXPT__REAL__UDINT",
  "EXPT__REAL__UINT", "EXPT__REAL__ULINT", "EXPT__REAL__USINT", "INSERT_EXT__STRING", "INSERT_EXT__WSTRING",
  "INSERT__STRING", "INSERT__WSTRING", "INT_TO_BYTE", "INT_TO_DINT", "INT_TO_DWORD", "INT_TO_LINT", "INT_TO_LREAL",
  "INT_TO_LWORD", "INT_TO_REAL", "INT_TO_SINT", "INT_TO_UDINT", "INT_TO_UINT", "INT_TO_ULINT", "INT_TO_USINT",
  "INT_TO_WORD", "LDATE_TO_LINT", "LDATE_TO_LWORD", "LDATE_TO_STRING", "LDATE_TO_ULINT", "LDATE_TO_WSTRING",
  "LDT_TO_DATE", "LDT_TO_DT", "LDT_TO_LINT", "LDT_TO_LTOD", "LDT_TO_LWORD", "LDT_TO_STRING", "LDT_TO_TOD",
  "LDT_TO_ULINT", "LDT_TO_WSTRING", "LEFT_EXT__STRING", "LEFT_EXT__WSTRING", "LEFT__STRING", "LEFT__WSTRING",
  "LINT_TO_BOOL", "LINT_TO_BYTE", "LINT_TO_DATE", "LINT_TO_DINT", "LINT_TO_DWORD", "LINT_TO_INT", "LINT_TO_LDATE",
  "LINT_TO_LREAL", "LINT_TO_LTIME", "LINT_TO_LTOD", "LINT_TO_LWORD", "LINT_TO_REAL", "LINT_TO_SINT",
  "LINT_TO_STRING", "LINT_TO_STRING_EXT", "LINT_TO_TIME", "LINT_TO_TOD", "LINT_TO_UDINT", "LINT_TO_UINT",
  "LINT_TO_ULINT", "LINT_TO_USINT", "LINT_TO_WORD", "LINT_TO_WSTRING", "LREAL_TO_DINT", "LREAL_TO_INT",
  "LREAL_TO_LINT", "LREAL_TO_LTIME", "LREAL_TO_LWORD", "LREAL_TO_REAL", "LREAL_TO_SINT", "LREAL_TO_STRING",
  "LREAL_TO_STRING_EXT", "LREAL_TO_TIME", "LREAL_TO_UDINT", "LREAL_TO_UINT", "LREAL_TO_ULINT", "LREAL_TO_USINT",
  "LREAL_TO_WSTRING", "LTIME_TO_LINT", "LTIME_TO_LREAL", "LTIME_TO_LWORD", "LTIME_TO_STRING", "LTIME_TO_TIME",
  "LTIME_TO_ULINT", "LTIME_TO_WSTRING", "LTOD_TO_LINT", "LTOD_TO_LWORD", "LTOD_TO_STRING", "LTOD_TO_TOD",
  "LTOD_TO_ULINT", "LTOD_TO_WSTRING", "LWORD_TO_BOOL", "LWORD_TO_BYTE", "LWORD_TO_DATE", "LWORD_TO_DINT",
  "LWORD_TO_DT", "LWORD_TO_DWORD", "LWORD_TO_INT", "LWORD_TO_LDATE", "LWORD_TO_LDT", "LWORD_TO_LINT",
  "LWORD_TO_LREAL", "LWORD_TO_LTIME", "LWORD_TO_LTOD", "LWORD_TO_SINT", "LWORD_TO_STRING", "LWORD_TO_STRING_EXT",
  "LWORD_TO_TIME", "LWORD_TO_TOD", "LWORD_TO_UDINT", "LWORD_TO_UINT", "LWORD_TO_ULINT", "LWORD_TO_USINT",
  "LWORD_TO_WORD", "LWORD_TO_WSTRING", "MID_EXT__STRING", "MID_EXT__WSTRING", "MID__STRING", "MID__WSTRING",
  "REAL_TO_DINT", "REAL_TO_DWORD", "REAL_TO_INT", "REAL_TO_LINT", "REAL_TO_LREAL", "REAL_TO_SINT", "REAL_TO_STRING",
  "REAL_TO_UDINT", "REAL_TO_UINT", "REAL_TO_ULINT", "REAL_TO_USINT", "REAL_TO_WSTRING", "REPLACE_EXT__STRING",
  "REPLACE_EXT__WSTRING", "REPLACE__STRING", "REPLACE__WSTRING", "RIGHT_EXT__STRING", "RIGHT_EXT__WSTRING",
  "RIGHT__STRING", "RIGHT__WSTRING", "SINT_TO_BYTE", "SINT_TO_DINT", "SINT_TO_DWORD", "SINT_TO_INT", "SINT_TO_LINT",
  "SINT_TO_LREAL", "SINT_TO_LWORD", "SINT_TO_REAL", "SINT_TO_UDINT", "SINT_TO_UINT", "SINT_TO_ULINT",
  "SINT_TO_USINT", "SINT_TO_WORD", "SPLIT_DATE__DINT", "SPLIT_DATE__INT", "SPLIT_DATE__LINT", "SPLIT_DATE__UDINT",
  "SPLIT_DATE__UINT", "SPLIT_DATE__ULINT", "SPLIT_DT__DINT", "SPLIT_DT__INT", "SPLIT_DT__LINT", "SPLIT_DT__UDINT",
  "SPLIT_DT__UINT", "SPLIT_DT__ULINT", "SPLIT_LDT__DINT", "SPLIT_LDT__INT", "SPLIT_LDT__LINT", "SPLIT_LDT__UDINT",
  "SPLIT_LDT__UINT", "SPLIT_LDT__ULINT", "SPLIT_LTOD__DINT", "SPLIT_LTOD__INT", "SPLIT_LTOD__LINT",
  "SPLIT_LTOD__UDINT", "SPLIT_LTOD__UINT", "SPLIT_LTOD__ULINT", "SPLIT_TOD__DINT", "SPLIT_TOD__INT",
  "SPLIT_TOD__LINT", "SPLIT_TOD__UDINT", "SPLIT_TOD__UINT", "SPLIT_TOD__ULINT", "STRING_EQUAL", "STRING_GREATER",
  "STRING_LESS", "STRING_TO_CHAR", "STRING_TO_DINT", "STRING_TO_LINT", "STRING_TO_LREAL", "STRING_TO_REAL",
  "STRING_TO_WSTRING", "STRING_TO_WSTRING_EXT", "SUB_DATE_DATE", "SUB_DT_DT", "SUB_DT_TIME", "SUB_LDATE_LDATE",
  "SUB_LDT_LDT", "SUB_LDT_LTIME", "SUB_LTIME", "SUB_LTOD_LTIME", "SUB_LTOD_LTOD", "SUB_TIME", "SUB_TOD_TIME",
  "SUB_TOD_TOD", "SUB__DATE_AND_TIME__DATE_AND_TIME", "SUB__DATE_AND_TIME__TIME", "SUB__DATE__DATE",
  "SUB__TIME_OF_DAY__TIME", "SUB__TIME_OF_DAY__TIME_OF_DAY", "SUB__TIME__TIME", "TIME", "TIME_TO_LINT",
  "TIME_TO_LREAL", "TIME_TO_LTIME", "TIME_TO_LWORD", "TIME_TO_STRING", "TIME_TO_STRING_EXT", "TIME_TO_ULINT",
  "TIME_TO_WSTRING", "TOD_TO_LINT", "TOD_TO_LTOD", "TOD_TO_LWORD", "TOD_TO_STRING", "TOD_TO_STRING_EXT",
  "TOD_TO_ULINT", "TOD_TO_WSTRING", "TRUNC__LREAL", "TRUNC__REAL", "UDINT_TO_BYTE", "UDINT_TO_DINT",
  "UDINT_TO_DWORD", "UDINT_TO_INT", "UDINT_TO_LINT", "UDINT_TO_LREAL", "UDINT_TO_LWORD", "UDINT_TO_REAL",
  "UDINT_TO_SINT", "UDINT_TO_UINT", "UDINT_TO_ULINT", "UDINT_TO_USINT", "UDINT_TO_WORD", "UINT_TO_BYTE",
  "UINT_TO_DINT", "UINT_TO_DWORD", "UINT_TO_INT", "UINT_TO_LINT", "UINT_TO_LREAL", "UINT_TO_LWORD", "UINT_TO_REAL",
  "UINT_TO_SINT", "UINT_TO_UDINT", "UINT_TO_ULINT", "UINT_TO_USINT", "UINT_TO_WORD", "ULINT_TO_BYTE",
  "ULINT_TO_DATE", "ULINT_TO_DINT", "ULINT_TO_DT", "ULINT_TO_DWORD", "ULINT_TO_INT", "ULINT_TO_LDATE",
  "ULINT_TO_LDT", "ULINT_TO_LINT", "ULINT_TO_LREAL", "ULINT_TO_LTIME", "ULINT_TO_LTOD", "ULINT_TO_LWORD",
  "ULINT_TO_REAL", "ULINT_TO_SINT", "ULINT_TO_TIME", "ULINT_TO_TOD", "ULINT_TO_UDINT", "ULINT_TO_UINT",
  "ULINT_TO_USINT", "ULINT_TO_WORD", "USINT_TO_BYTE", "USINT_TO_DINT", "USINT_TO_DWORD", "USINT_TO_INT",
  "USINT_TO_LINT", "USINT_TO_LREAL", "USINT_TO_LWORD", "USINT_TO_REAL", "USINT_TO_SINT", "USINT_TO_UDINT",
  "USINT_TO_UINT", "USINT_TO_ULINT", "USINT_TO_WORD", "WCHAR_TO_CHAR", "WCHAR_TO_DWORD", "WCHAR_TO_LWORD",
  "WCHAR_TO_WORD", "WCHAR_TO_WSTRING", "WORD_TO_BOOL", "WORD_TO_BYTE", "WORD_TO_DINT", "WORD_TO_DWORD",
  "WORD_TO_INT", "WORD_TO_LINT", "WORD_TO_LWORD", "WORD_TO_SINT", "WORD_TO_UDINT", "WORD_TO_UINT", "WORD_TO_ULINT",
  "WORD_TO_USINT", "WSTRING_EQUAL", "WSTRING_GREATER", "WSTRING_LESS", "WSTRING_TO_DINT", "WSTRING_TO_LINT",
  "WSTRING_TO_LREAL", "WSTRING_TO_REAL", "WSTRING_TO_STRING", "WSTRING_TO_STRING_EXT", "WSTRING_TO_WCHAR" }
Generics == {
  "ABS", "ACOS", "ADD", "ASIN", "ATAN", "ATAN2", "CONCAT", "CONCAT_DATE", "CONCAT_DT", "CONCAT_EXT", "CONCAT_LDT",
  "CONCAT_LTOD", "CONCAT_TOD", "COS", "DELETE", "DELETE_EXT", "DIV", "DIV_LTIME", "DIV_TIME", "EQ", "EXP", "EXPT",
  "FIND", "FROM_BIG_ENDIAN", "FROM_LITTLE_ENDIAN", "GE", "GT", "INSERT", "INSERT_EXT", "IS_VALID", "IS_VALID_BCD",
  "LE", "LEFT", "LEFT_EXT", "LEN", "LIMIT", "LN", "LOG", "LT", "MAX", "MID", "MID_EXT", "MIN", "MUL", "MUL_LTIME",
  "MUL_TIME", "NE", "REPLACE", "REPLACE_EXT", "RIGHT", "RIGHT_EXT", "ROL", "ROR", "ROUND", "SHL", "SHR", "SIN",
  "SPLIT_DATE", "SPLIT_DT", "SPLIT_LDT", "SPLIT_LTOD", "SPLIT_TOD", "SQRT", "SUB", "TAN", "TO_BIG_ENDIAN",
  "TO_LITTLE_ENDIAN", "TRUNC" }
(* names of the specialisations a generic call links to                      *)
Specialisations == {
  "ABS__DINT", "ABS__INT", "ABS__LINT", "ABS__LREAL", "ABS__REAL", "ABS__SINT", "ACOS__LREAL", "ACOS__REAL",
  "ADD__DATE_AND_TIME__TIME", "ADD__TIME_OF_DAY__TIME", "ADD__TIME__TIME", "ASIN__LREAL", "ASIN__REAL",
  "ATAN2__LREAL", "ATAN2__REAL", "ATAN__LREAL", "ATAN__REAL", "CONCAT_DATE__DINT", "CONCAT_DATE__INT",
  "CONCAT_DATE__LINT", "CONCAT_DATE__UDINT", "CONCAT_DATE__UINT", "CONCAT_DATE__ULINT", "CONCAT_DT__DINT",
  "CONCAT_DT__INT", "CONCAT_DT__LINT", "CONCAT_DT__UDINT", "CONCAT_DT__UINT", "CONCAT_DT__ULINT",
  "CONCAT_EXT__STRING", "CONCAT_EXT__WSTRING", "CONCAT_LDT__DINT", "CONCAT_LDT__INT", "CONCAT_LDT__LINT",
  "CONCAT_LDT__UDINT", "CONCAT_LDT__UINT", "CONCAT_LDT__ULINT", "CONCAT_LTOD__DINT", "CONCAT_LTOD__INT",
  "CONCAT_LTOD__LINT", "CONCAT_LTOD__SINT", "CONCAT_LTOD__UDINT", "CONCAT_LTOD__UINT", "CONCAT_LTOD__ULINT",
  "CONCAT_LTOD__USINT", "CONCAT_TOD__DINT", "CONCAT_TOD__INT", "CONCAT_TOD__LINT", "CONCAT_TOD__SINT",
  "CONCAT_TOD__UDINT", "CONCAT_TOD__UINT", "CONCAT_TOD__ULINT", "CONCAT_TOD__USINT", "CONCAT__STRING",
  "CONCAT__WSTRING", "COS__LREAL", "COS__REAL", "DELETE_EXT__STRING", "DELETE_EXT__WSTRING", "DELETE__STRING",
  "DELETE__WSTRING", "DIV_LTIME__DINT", "DIV_LTIME__INT", "DIV_LTIME__LINT", "DIV_LTIME__LREAL", "DIV_LTIME__REAL",
  "DIV_LTIME__SINT", "DIV_LTIME__UDINT", "DIV_LTIME__UINT", "DIV_LTIME__ULINT", "DIV_LTIME__USINT", "DIV_TIME__DINT",
  "DIV_TIME__INT", "DIV_TIME__LINT", "DIV_TIME__LREAL", "DIV_TIME__REAL", "DIV_TIME__SINT", "DIV_TIME__UDINT",
  "DIV_TIME__UINT", "DIV_TIME__ULINT", "DIV_TIME__USINT", "DIV__TIME__DINT", "DIV__TIME__INT", "DIV__TIME__LINT",
  "DIV__TIME__LREAL", "DIV__TIME__REAL", "DIV__TIME__SINT", "DIV__TIME__UDINT", "DIV__TIME__UINT",
  "DIV__TIME__ULINT", "DIV__TIME__USINT", "EQ__STRING", "EQ__WSTRING", "EXPT__LREAL__DINT", "EXPT__LREAL__INT",
  "EXPT__LREAL__LINT", "EXPT__LREAL__LREAL", "EXPT__LREAL__REAL", "EXPT__LREAL__SINT", "EXPT__LREAL__UDINT",
  "EXPT__LREAL__UINT", "EXPT__LREAL__ULINT", "EXPT__LREAL__USINT", "EXPT__REAL__DINT", "EXPT__REAL__INT",
  "EXPT__REAL__LINT", "EXPT__REAL__LREAL", "EXPT__REAL__REAL", "EXPT__REAL__SINT", "EXPT__REAL__UDINT",
  "EXPT__REAL__UINT", "EXPT__REAL__ULINT", "EXPT__REAL__USINT", "EXP__LREAL", "EXP__REAL", "FIND__STRING",
  "FIND__WSTRING", "FROM_BIG_ENDIAN__DATE", "FROM_BIG_ENDIAN__DATE_AND_TIME", "FROM_BIG_ENDIAN__DINT",
  "FROM_BIG_ENDIAN__DWORD", "FROM_BIG_ENDIAN__INT", "FROM_BIG_ENDIAN__LINT", "FROM_BIG_ENDIAN__LREAL",
  "FROM_BIG_ENDIAN__LWORD", "FROM_BIG_ENDIAN__REAL", "FROM_BIG_ENDIAN__TIME_OF_DAY", "FROM_BIG_ENDIAN__UDINT",
  "FROM_BIG_ENDIAN__UINT", "FROM_BIG_ENDIAN__ULINT", "FROM_BIG_ENDIAN__WCHAR", "FROM_BIG_ENDIAN__WORD",
  "FROM_LITTLE_ENDIAN__DATE", "FROM_LITTLE_ENDIAN__DATE_AND_TIME", "FROM_LITTLE_ENDIAN__DINT",
  "FROM_LITTLE_ENDIAN__DWORD", "FROM_LITTLE_ENDIAN__INT", "FROM_LITTLE_ENDIAN__LINT", "FROM_LITTLE_ENDIAN__LREAL",
  "FROM_LITTLE_ENDIAN__LWORD", "FROM_LITTLE_ENDIAN__REAL", "FROM_LITTLE_ENDIAN__TIME_OF_DAY",
  "FROM_LITTLE_ENDIAN__UDINT", "FROM_LITTLE_ENDIAN__UINT", "FROM_LITTLE_ENDIAN__ULINT", "FROM_LITTLE_ENDIAN__WCHAR",
  "FROM_LITTLE_ENDIAN__WORD", "GE__STRING", "GE__WSTRING", "GT__STRING", "GT__WSTRING", "INSERT_EXT__STRING",
  "INSERT_EXT__WSTRING", "INSERT__STRING", "INSERT__WSTRING", "IS_VALID_BCD__BYTE", "IS_VALID_BCD__DWORD",
  "IS_VALID_BCD__LWORD", "IS_VALID_BCD__WORD", "IS_VALID__LREAL", "IS_VALID__REAL", "LEFT_EXT__STRING",
  "LEFT_EXT__WSTRING", "LEFT__STRING", "LEFT__WSTRING", "LEN__STRING", "LEN__WSTRING", "LE__STRING", "LE__WSTRING",
  "LIMIT__BOOL", "LIMIT__BYTE", "LIMIT__CHAR", "LIMIT__DATE", "LIMIT__DATE_AND_TIME", "LIMIT__DINT", "LIMIT__DWORD",
  "LIMIT__INT", "LIMIT__LINT", "LIMIT__LREAL", "LIMIT__LWORD", "LIMIT__REAL", "LIMIT__SINT", "LIMIT__TIME",
  "LIMIT__TIME_OF_DAY", "LIMIT__UDINT", "LIMIT__UINT", "LIMIT__ULINT", "LIMIT__USINT", "LIMIT__WCHAR", "LIMIT__WORD",
  "LN__LREAL", "LN__REAL", "LOG__LREAL", "LOG__REAL", "LT__STRING", "LT__WSTRING", "MAX__BOOL", "MAX__BYTE",
  "MAX__CHAR", "MAX__DATE", "MAX__DATE_AND_TIME", "MAX__DINT", "MAX__DWORD", "MAX__INT", "MAX__LINT", "MAX__LREAL",
  "MAX__LWORD", "MAX__REAL", "MAX__SINT", "MAX__TIME", "MAX__TIME_OF_DAY", "MAX__UDINT", "MAX__UINT", "MAX__ULINT",
  "MAX__USINT", "MAX__WCHAR", "MAX__WORD", "MID_EXT__STRING", "MID_EXT__WSTRING", "MID__STRING", "MID__WSTRING",
  "MIN__BOOL", "MIN__BYTE", "MIN__CHAR", "MIN__DATE", "MIN__DATE_AND_TIME", "MIN__DINT", "MIN__DWORD", "MIN__INT",
  "MIN__LINT", "MIN__LREAL", "MIN__LWORD", "MIN__REAL", "MIN__SINT", "MIN__TIME", "MIN__TIME_OF_DAY", "MIN__UDINT",
  "MIN__UINT", "MIN__ULINT", "MIN__USINT", "MIN__WCHAR", "MIN__WORD", "MUL_LTIME__DINT", "MUL_LTIME__INT",
  "MUL_LTIME__LINT", "MUL_LTIME__LREAL", "MUL_LTIME__REAL", "MUL_LTIME__SINT", "MUL_LTIME__UDINT", "MUL_LTIME__UINT",
  "MUL_LTIME__ULINT", "MUL_LTIME__USINT", "MUL_TIME__DINT", "MUL_TIME__INT", "MUL_TIME__LINT", "MUL_TIME__LREAL",
  "MUL_TIME__REAL", "MUL_TIME__SINT", "MUL_TIME__UDINT", "MUL_TIME__UINT", "MUL_TIME__ULINT", "MUL_TIME__USINT",
  "MUL__TIME__DINT", "MUL__TIME__INT", "MUL__TIME__LINT", "MUL__TIME__LREAL", "MUL__TIME__REAL", "MUL__TIME__SINT",
  "MUL__TIME__UDINT", "MUL__TIME__UINT", "MUL__TIME__ULINT", "MUL__TIME__USINT", "NE__STRING", "NE__WSTRING",
  "REPLACE_EXT__STRING", "REPLACE_EXT__WSTRING", "REPLACE__STRING", "REPLACE__WSTRING", "RIGHT_EXT__STRING",
  "RIGHT_EXT__WSTRING", "RIGHT__STRING", "RIGHT__WSTRING", "ROL__BYTE", "ROL__DWORD", "ROL__LWORD", "ROL__WORD",
  "ROR__BYTE", "ROR__DWORD", "ROR__LWORD", "ROR__WORD", "ROUND__LREAL", "ROUND__REAL", "SHL__BYTE", "SHL__DWORD",
  "SHL__LWORD", "SHL__WORD", "SHR__BYTE", "SHR__DWORD", "SHR__LWORD", "SHR__WORD", "SIN__LREAL", "SIN__REAL",
  "SPLIT_DATE__DINT", "SPLIT_DATE__INT", "SPLIT_DATE__LINT", "SPLIT_DATE__UDINT", "SPLIT_DATE__UINT",
  "SPLIT_DATE__ULINT", "SPLIT_DT__DINT", "SPLIT_DT__INT", "SPLIT_DT__LINT", "SPLIT_DT__UDINT", "SPLIT_DT__UINT",
  "SPLIT_DT__ULINT", "SPLIT_LDT__DINT", "SPLIT_LDT__INT", "SPLIT_LDT__LINT", "SPLIT_LDT__UDINT", "SPLIT_LDT__UINT",
  "SPLIT_LDT__ULINT", "SPLIT_LTOD__DINT", "SPLIT_LTOD__INT", "SPLIT_LTOD__LINT", "SPLIT_LTOD__UDINT",
  "SPLIT_LTOD__UINT", "SPLIT_LTOD__ULINT", "SPLIT_TOD__DINT", "SPLIT_TOD__INT", "SPLIT_TOD__LINT",
  "SPLIT_TOD__UDINT", "SPLIT_TOD__UINT", "SPLIT_TOD__ULINT", "SQRT__LREAL", "SQRT__REAL",
  "SUB__DATE_AND_TIME__DATE_AND_TIME", "SUB__DATE_AND_TIME__TIME", "SUB__DATE__DATE", "SUB__TIME_OF_DAY__TIME",
  "SUB__TIME_OF_DAY__TIME_OF_DAY", "SUB__TIME__TIME", "TAN__LREAL", "TAN__REAL", "TO_BIG_ENDIAN__DATE",
  "TO_BIG_ENDIAN__DATE_AND_TIME", "TO_BIG_ENDIAN__DINT", "TO_BIG_ENDIAN__DWORD", "TO_BIG_ENDIAN__INT",
  "TO_BIG_ENDIAN__LINT", "TO_BIG_ENDIAN__LREAL", "TO_BIG_ENDIAN__LWORD", "TO_BIG_ENDIAN__REAL",
  "TO_BIG_ENDIAN__TIME_OF_DAY", "TO_BIG_ENDIAN__UDINT", "TO_BIG_ENDIAN__UINT", "TO_BIG_ENDIAN__ULINT",
  "TO_BIG_ENDIAN__WCHAR", "TO_BIG_ENDIAN__WORD", "TO_LITTLE_ENDIAN__DATE", "TO_LITTLE_ENDIAN__DATE_AND_TIME",
  "TO_LITTLE_ENDIAN__DINT", "TO_LITTLE_ENDIAN__DWORD", "TO_LITTLE_ENDIAN__INT", "TO_LITTLE_ENDIAN__LINT",
  "TO_LITTLE_ENDIAN__LREAL", "TO_LITTLE_ENDIAN__LWORD", "TO_LITTLE_ENDIAN__REAL", "TO_LITTLE_ENDIAN__TIME_OF_DAY",
  "TO_LITTLE_ENDIAN__UDINT", "TO_LITTLE_ENDIAN__UINT", "TO_LITTLE_ENDIAN__ULINT", "TO_LITTLE_ENDIAN__WCHAR",
  "TO_LITTLE_ENDIAN__WORD", "TRUNC__LREAL", "TRUNC__REAL" }
(* parameters of native functions in the order of their meaning (a caller *)
(* may name them); only functions of more than one parameter                *)
Parameters == [
  ATAN2 |-> <<"Y", "X">>,
  EXPT |-> <<"IN1", "IN2">>,
  EXPT__REAL__DINT |-> <<"IN1", "IN2">>,
  EXPT__REAL__REAL |-> <<"IN1", "IN2">>,
  EXPT__REAL__LREAL |-> <<"IN1", "IN2">>,
  EXPT__LREAL__DINT |-> <<"IN1", "IN2">>,
  EXPT__LREAL__REAL |-> <<"IN1", "IN2">>,
  EXPT__LREAL__LREAL |-> <<"IN1", "IN2">>,
  SHL |-> <<"IN", "N">>,
  SHR |-> <<"IN", "N">>,
  ROL |-> <<"IN", "N">>,
  ROR |-> <<"IN", "N">>,
  CONCAT_DATE_TOD |-> <<"DATE_INPUT", "TOD_INPUT">>,
  CONCAT_DATE |-> <<"YEAR", "MONTH", "DAY">>,
  CONCAT_TOD |-> <<"HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  CONCAT_LTOD |-> <<"HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  CONCAT_DT |-> <<"YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  CONCAT_LDT |-> <<"YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DATE |-> <<"IN", "YEAR", "MONTH", "DAY">>,
  SPLIT_DATE__INT |-> <<"IN", "YEAR", "MONTH", "DAY">>,
  SPLIT_DATE__UINT |-> <<"IN", "YEAR", "MONTH", "DAY">>,
  SPLIT_DATE__DINT |-> <<"IN", "YEAR", "MONTH", "DAY">>,
  SPLIT_DATE__UDINT |-> <<"IN", "YEAR", "MONTH", "DAY">>,
  SPLIT_DATE__LINT |-> <<"IN", "YEAR", "MONTH", "DAY">>,
  SPLIT_DATE__ULINT |-> <<"IN", "YEAR", "MONTH", "DAY">>,
  SPLIT_TOD |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_TOD__INT |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_TOD__UINT |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_TOD__DINT |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_TOD__UDINT |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_TOD__LINT |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_TOD__ULINT |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_LTOD |-> <<"IN", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DT__INT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DT__UINT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DT__DINT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DT__UDINT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DT__LINT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_DT__ULINT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  SPLIT_LDT |-> <<"IN", "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "MILLISECOND">>,
  ADD |-> <<"IN1", "IN2">>,
  ADD_TIME |-> <<"IN1", "IN2">>,
  ADD_TOD_TIME |-> <<"IN1", "IN2">>,
  ADD_DT_TIME |-> <<"IN1", "IN2">>,
  SUB |-> <<"IN1", "IN2">>,
  SUB_TIME |-> <<"IN1", "IN2">>,
  SUB_DATE_DATE |-> <<"IN1", "IN2">>,
  SUB_TOD_TIME |-> <<"IN1", "IN2">>,
  SUB_TOD_TOD |-> <<"IN1", "IN2">>,
  SUB_DT_TIME |-> <<"IN1", "IN2">>,
  SUB_DT_DT |-> <<"IN1", "IN2">>,
  MUL |-> <<"IN1", "IN2">>,
  MUL_TIME |-> <<"IN1", "IN2">>,
  MUL_LTIME |-> <<"IN1", "IN2">>,
  DIV |-> <<"IN1", "IN2">>,
  DIV_TIME |-> <<"IN1", "IN2">>,
  DIV_LTIME |-> <<"IN1", "IN2">>,
  BYTE_TO_STRING_EXT |-> <<"IN", "OUT">>,
  LWORD_TO_STRING_EXT |-> <<"IN", "OUT">>,
  LINT_TO_STRING_EXT |-> <<"IN", "OUT">>,
  LREAL_TO_STRING_EXT |-> <<"IN", "OUT">>,
  DT_TO_STRING_EXT |-> <<"IN", "OUT">>,
  TIME_TO_STRING_EXT |-> <<"IN", "OUT">>,
  DATE_TO_STRING_EXT |-> <<"IN", "OUT">>,
  TOD_TO_STRING_EXT |-> <<"IN", "OUT">>,
  LIMIT |-> <<"MIN", "IN", "MAX">>,
  WSTRING_TO_STRING_EXT |-> <<"IN", "OUT">>,
  STRING_TO_WSTRING_EXT |-> <<"IN", "OUT">>,
  LEFT |-> <<"IN", "L">>,
  LEFT_EXT |-> <<"IN", "L", "OUT">>,
  LEFT_EXT__STRING |-> <<"IN", "L", "OUT">>,
  LEFT_EXT__WSTRING |-> <<"IN", "L", "OUT">>,
  RIGHT |-> <<"IN", "L">>,
  RIGHT_EXT |-> <<"IN", "L", "OUT">>,
  RIGHT_EXT__STRING |-> <<"IN", "L", "OUT">>,
  RIGHT_EXT__WSTRING |-> <<"IN", "L", "OUT">>,
  MID |-> <<"IN", "L", "P">>,
  MID_EXT |-> <<"IN", "L", "P", "OUT">>,
  MID_EXT__STRING |-> <<"IN", "L", "P", "OUT">>,
  MID_EXT__WSTRING |-> <<"IN", "L", "P", "OUT">>,
  CONCAT_EXT |-> <<"OUT", "ARGS">>,
  INSERT |-> <<"IN1", "IN2", "P">>,
  INSERT_EXT |-> <<"IN1", "IN2", "P", "OUT">>,
  INSERT_EXT__STRING |-> <<"IN1", "IN2", "P", "OUT">>,
  INSERT_EXT__WSTRING |-> <<"IN1", "IN2", "P", "OUT">>,
  DELETE |-> <<"IN", "L", "P">>,
  DELETE_EXT |-> <<"IN", "L", "P", "OUT">>,
  DELETE_EXT__STRING |-> <<"IN", "L", "P", "OUT">>,
  DELETE_EXT__WSTRING |-> <<"IN", "L", "P", "OUT">>,
  REPLACE |-> <<"IN1", "IN2", "L", "P">>,
  REPLACE_EXT |-> <<"IN1", "IN2", "L", "P", "OUT">>,
  REPLACE_EXT__STRING |-> <<"IN1", "IN2", "L", "P", "OUT">>,
  REPLACE_EXT__WSTRING |-> <<"IN1", "IN2", "L", "P", "OUT">>,
  FIND |-> <<"IN1", "IN2">>,
  NE |-> <<"IN1", "IN2">> ]
=============================================================================
