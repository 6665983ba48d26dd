--------------------------- MODULE SourceProfiles ---------------------------
EXTENDS SourceGen, Phrases
T(S) == {Text(x) : x \in S}
TG(S) == {T(g) : g \in S}
None == {}
(* Words: in front of the word.                                            *)
S_WordQ == T({"", "Перем ", "а.", "а = ", "Процедура П() ", "Если а Тогда ", "//к\n"})
S_Word == T({"", "Перем ", "а.", "а = ", "Процедура П() ", "Если а Тогда ", "//к\n", "Ж", "_", "Процедура ", "Функция Ф(", "Для ", "Для Каждого ", "Для Каждого а Из ",
            "Пока а ", "Попытка ", "а = Новый ", "~", "а . //к\n ", "а(", "а = (б ", "а = б.", "Перейти ", "#Область\n", "а.б.", "\"\"", "1 ", "&НаКлиенте "})
S_WordDeep == T({"", "а."})
S_Main == T({"", "а = ", "а.", "Перем "})

(* Words that are no keywords: of other languages, of 1C, and words that    *)
(* look like keywords but have a letter of the other alphabet.             *)
W_Others == T({"If", "Then", "ElsIf", "Else", "EndIf", "For", "Each", "In", "To", "While", "Do", "EndDo", "Procedure", "EndProcedure", "Function", "EndFunction",
               "Var", "Val", "Export", "Return", "Break", "Continue", "Goto", "Try", "Except", "EndTry", "Raise", "And", "OR", "not", "True", "FALSE", "Undefined", "NULL",
               "New", "Execute", "Eval", "AddHandler", "RemoveHandler", "Async", "Await", "Вычислить", "Массив", "Структура", "Соответствие", "ДобавитьОбработчик",
               "УдалитьОбработчик", "Асинх", "Ждать", "Область", "КонецОбласти", "НаКлиенте", "НаСервере", "НаСервереБезКонтекста", "Конец", "Модуль", "ЭтотОбъект",
               "Eсли", "Еcли", "Тогдa", "Hе", "Нe", "ИЗ1", "Пo", "Знaч", "Перeм", "Возвpат", "Циkл", "Новый2", "Ecли", "Функцuя", "Иначе_Если", "_Если", "Исключениe",
               "Екcпорт", "Если_", "ПереЙти1", "Истинa", "Лoжь", "Нeопределено", "Дата", "Число", "Строка", "Булево", "Тип", "ё", "Ё"})
(* Signs, of this language and of others, next to each other.               *)
S_Sign == T({"", "а ", "а = б ", "Если а ", "ф(", "а = (б ", "а = 1 ", "а = \"с\" ", "а[", "Перем а "})
W_Sign == T({"!=", "==", "=", "<", ">", "=>", "=<", "<>", "><", "<=", ">=", "!", "&&", "||", "&", "|", "^", "$", "{", "}", "`", "\\", "@", "+", "++", "+=", "-", "--", "-=", "*", "**", "/", "%", "?", "??", ":", ":=", "::", ";", ",", ".", "..", "->", "~", "#", "б", "1", "б Тогда КонецЕсли;", "б);", "б;", " ", "0x1F", "1e5", "1_000", "1,5", ".5", "5.", "_", "'", "\""})
  \cup {<<c>> : c \in {8470, 171, 187, 8211, 8212, 8230, 8800, 8804, 8805, 215, 247, 8722, 8220, 8216, 8203, 160, 8232, 12}}
(* Layouts: what may stand between two tokens.                             *)
L_Gaps == T({" ", "", "\n", "\r\n", "\t", " // к�;\n", "\n#Область \"а\n", "//\n\t//Если\r\n", "\n\n  ", "\n\t#Если Клиент Тогда\r\n//\n"})
L_Some == T({" ", "", "\n", " // к;\n", "\n#Область А\n", "\r\n\t"})
Plainly(t, i) ==
  CASE t[1] = "ID" -> <<1078, 65 + i>>
    [] t[1] = "NUM" -> <<48 + (i % 10), 49>>
    [] t[1] = "STR" -> <<34, 1079, 34>>
    [] t[1] = "DATE" -> Text("'20240229'")
    [] t[1] = "LABEL" -> <<126, 1084, 97 + i>>
    [] t[1] = "DIR" -> Text("&НаСервере")
    [] t[1] \in DOMAIN Written -> Written[t[1]]
    [] OTHER -> Text(t[1])
Program(ph) == [i \in 1..Len(ph) |-> <<>> \o Plainly(ph[i], i)]
L_Kinds == {Program(p) : p \in P_Kinds \cup decls}
L_Blocks == {Program(b \o p) : b \in {<<w("If"), id, w("Then")>>, <<w("Function"), id, w("("), w(")")>>}, p \in P_KindsS}
L_Prog == {Program(p) : p \in {q \in P_Prog : Len(q) < 26}}
(* Walks.                                                                  *)
W_Gaps == L_Gaps \cup T({"\n    ", "\n\t\t", " // Возврат \" '\n", "\n//\n//\n#Область Б\n#КонецОбласти\n"})
W_Names == T({"а", "Б", "Если1", "_", "конецЕслиЖ", "Abc", "ё", "НеЗнач", "и1", "Длинное_Имя_Переменной", "x", "Возврат_", "щЩ", "или_", "Z9", "中", "Процедура2",
              "е", "ж", "з", "к1", "к2", "к3", "к4", "к5", "к6"})
W_Nums == T({"0", "1", "12", "3.5", "007", "100000", "0.25", "42"})
W_Strs == T({"\"\"", "\"а�\"", "\"Если \"\"б\"\" // нет\"", "\"а\n|б\"", "\"в\n\t// к\n  |г;\"", "\" ; \"", "\"#Область '\""})
W_Dates == T({"'20240229'", "'19991231235959'", "'00000000'", "'2001.02.03 04:05'"})
W_Labels == T({"~м1", "~Если", "~_"})
W_Dirs == T({"&НаКлиенте", "&насервере", "&НАСЕРВЕРЕБЕЗКОНТЕКСТА", "&НаКлиентеНаСервереБезКонтекста", "&НаКлиентеНаСервере"})
W_Bad == T({";", ")", "(", "]", "=", ",", ".", "+", "Если", "Тогда", "КонецЕсли", "КонецЦикла", "КонецПопытки", "Исключение", "Процедура", "КонецПроцедуры", "КонецФункции",
            "а", "1", "\"с\"", "'20240229'", "~м", "&НаСервере", "Экспорт", "Знач", "Перем", "Из", "По", "Каждого", "Новый", "Иначе", "ИначеЕсли", "?", ":", "[", "Не", "И",
            "'20240230'", "1.2.3", "@", "\"", "1ж", "&Ж", "Прервать", "Продолжить", "ВызватьИсключение", "Возврат 1", "Функция Ф() Возврат"})
=============================================================================
