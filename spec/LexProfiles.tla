----------------------------- MODULE LexProfiles -----------------------------
(* The explorations of the lexical machine.                                *)
EXTENDS LexGen

Empty == {<<>>}
T(S) == {Text(x) : x \in S}
G_None == {}
TG(S) == {T(g) : g \in S}

(* Every kind of character.                                                *)
C_Char == T({"я", "_", "1", ".", "\"", "'", "|", " ", "\n", "/", "#", "&", "~", "<", ">", "=", ";", "-", "(", "@"})
(* Words and operators next to each other.                                 *)
C_Word == T({"Если", "и", "НЕ", "конец", "ж", "Z", "_", "7", ".", " ", "\n", "&НаКлиенте", "&НаСервере", "БезКонтекста", "~", "=", "<", ">", "//", "#", "/"})
(* String literals.                                                        *)
C_Str == T({"\"", "\n", "|", "я", " ", "/", "//", "1", ";", "'", "\t", "#", "\r\n"})
S_Str == T({"\"", "а=\""})
C_StrOdd == T({"\\", "\\n", "%", "<", "&", "$1", "中", "\"\"", "\n|", "а"}) \cup {<<c>> : c \in {0, 11, 12, 31, 127, 133, 160, 173, 768, 8203, 8206, 8232, 65279, 65533, 128512}}
S_StrA == T({"а=\""})
G_Str == TG({{"\n|", "\n  |", "\n\t// к\n|", "\n//\n  //\n|"}, {"\n//\n|", "\r\n|", " \n \t|"}, {"\"\""}, {"я", "Если", "1", ";"}, {" ", "\t", "  "},
          {"/", "//", "#", "'", "|", "&", "\\"}, {"слово", " Z ", "中", "�"}, {"\" \"", "\"\n\"", "\"\t\r\n \"", "\"\"\"\""}}) \cup {{<<c>> : c \in {0, 11, 12, 127, 133, 160, 8203, 8232, 65279}}}
No == <<>>
Q == Text("\"")
QLine == Text("\n|я\"")
QTwo == Text("я\n|\n\t|1\";")
QE == Text("\" ; // \"")
(* Number literals.                                                        *)
C_Num == T({"0", "1", "9", ".", "е", "_", " ", "-", ";", "+"})
S_NumA == T({"а=", "а=-", "а = +"})
dgs == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
G_Num == TG({dgs, {"1", "25", "125", "625", "99", "00"}, {"7", "3", "8", "64"}, {".", "0", "9", "11"}, {"00", "5", "2"}, {";", " ", "1", "31", "4"}})
(* Date literals: components that are possible, borderline and impossible.  *)
C_Date == T({"2023", "2024", "1900", "2000", "0001", "0000", "02", "04", "12", "13", "28", "29", "30", "31", "32", "00", "23", "24", "59", "60",
           "9", "-", ":", " ", ".", "'", ";"})
S_DateA == T({"а='"})
G_Date == TG({{"2023", "2024", "1900", "2000", "0001"}, {"02", "04", "12", "13", "01"}, {"28", "29", "30", "31"}, {"00", "23", "24", "59"}, {"59", "60", "00"}, {"-", ":", " ", "."}, {"'"}})
S_DateY == T({"а='2023", "а='2024", "а='1900", "а='2000", "а='0001", "а='0000", "а='9999"})
C_DateC == T({"00", "01", "02", "04", "06", "09", "11", "12", "13", "28", "29", "30", "31", "32", "23", "24", "59", "60", "99", "'"})
C_DateT == T({"00", "09", "23", "24", "59", "60", "99", "'"})
S_DateT == T({"а='20240229", "а='19991231", "а='00010101", "а='20230229", "а='00000000"})
(* Comments and regions.                                                   *)
C_Gap == T({"//", "/", "#", "\n", "\r\n", "\r", " ", "\t", "ж", "\"", "|", "#Область А", "// �\"", "5", "'"})
(* Whole tokens and gaps for long random texts.                            *)
w_words == T({"Если", "ЕСЛИ", "если", "КонецЕсли", "Конец", "иНаче", "ИначеЕсли", "Процедура", "и", "ИЛИ", "не", "Истина", "ЛОЖЬ",
            "Неопределено", "Новый", "Выполнить", "Выполнитьс", "знач", "ж", "Щ1", "_", "abc", "Ёж", "Перейти", "цикл", "Цикла", "экспорт", "ß", "中"})
w_ops == T({"=", "<", ">", "<=", ">=", "<>", "+", "-", "*", "/", "%", "(", ")", "[", "]", ",", ";", ":", "?"})
w_lits == T({"0 ", "12;", "3.14\n", "007,", "\"\"", "\"�\"", "\"я\"", "\"a\"\"b\"", "\"// \"", "\"а\n|б\"", "\"а\n  // к\n\t|б\"", "'20240229';", "'2024-02-29 10:00' ,", "'00000000')",
           "\" \r\n |\"", "\"#Если\"", "\"|\""})
w_gaps == T({" ", "\t", "\n", "\r\n", " // к\n", "//��\n", "\n#Область �А\n", "\n\t#КонецОбласти\n", "  ", "\n\n", "\n// а\n// б\n", "\n#А\n//б\n#В\n", "//", "\n#Если Сервер Тогда"})
w_line == T({"\n"})
w_dot == T({".ж", ". Если", ".\n// к\nи", ".ИЛИ.", "ж.", "а.не.Не "})
w_odd == T({"\n&НаКлиенте", " &насервере", ";&НаКлиентеНаСервереБезКонтекста", ",&НАКЛИЕНТЕНАСЕРВЕРЕ", " ~м", "\n~М1:", " 1", "ж", "_9"})
w_bad == T({"@", "!", "$", "&", "&ж", "'", "\"", "1.2.3", "1ж", "'2024'", "'20240230'", "\"\n", "№", "�", "\\", "{"})
G_Long == {w_words, w_ops, w_lits, w_gaps, w_line, w_odd, w_dot}
G_Err == {w_words, w_ops, w_lits, w_gaps, w_odd, w_bad}
S_Long == T({"", "Если ", "// к\n", "#Область\n", " "})
=============================================================================
