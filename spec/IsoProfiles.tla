----------------------------- MODULE IsoProfiles -----------------------------
(* The explorations of several objects.  Every text leaves something open   *)
(* that another one must not see, or needs something it must not get from   *)
(* another one.                                                            *)
EXTENDS Iso

Texts == <<
  Text("Пока а Цикл Прервать; КонецЦикла;"),
  Text("а = 1; Прервать;"),                                        \* context
  Text("Для Каждого а Из б Цикл Если"),                            \* ends early
  Text("Попытка а(); Исключение ВызватьИсключение; КонецПопытки"),
  Text("ВызватьИсключение;"),                                      \* context
  Text("Попытка б = 1; Исключение в(("),                           \* ends early
  Text("Функция Ф(а, Знач б = -1) Экспорт Перем в; Возврат а; КонецФункции"),
  Text("Процедура П() Возврат 1; КонецПроцедуры"),                 \* context
  Text("Функция Ф() Перем а; Если а Тогда Возврат а"),             \* ends early
  Text("&НаСервере Процедура П() Экспорт КонецПроцедуры"),
  Text("&НаКлиенте Перем"),                                        \* ends early
  Text("Процедура П() ; а = 1 КонецПроцедуры"),
  Text("Перем а, б Экспорт; Перем в;"),
  Text("Перем А; Перем а;"),                                       \* context
  Text("Процедура Р() Перем а, б; КонецПроцедуры в();"),
  Text("а = \"х"),                                                 \* lexical
  Text("а = -(б + 1) * Не в; Если а Тогда ИначеЕсли б Тогда в(); Иначе г = 1; КонецЕсли"),
  Text("~м: Перейти ~м; Для и = 1 По 2 Цикл Продолжить; КонецЦикла"),
  Text("а = '20240229'; б = 12.5; в = \"с\n|т\";"),
  Text("ю(;"),                                                     \* misfit
  Text("а = Новый Массив(1,,2); Выполнить(\"а\"); б[1].в(г).д = ?(а, б, -в);"),
  Text(";;а = 1;;"),
  Text("~метка: КоличествоСтрок = КоличествоСтрок + 100; Запрос.ВыполнитьЗапрос(\"Текст\", Неопределено);"),
  Text("~метка: количествоСтрок = КОЛИЧЕСТВОСТРОК + 100.50; ЗАПРОС.выполнитьЗАПРОС(\"текст\", НЕОПРЕДЕЛЕНО); Перейти ~Метка;")
>>
Few == <<Texts[1], Texts[2], Texts[3], Texts[4], Texts[7], Texts[9], Texts[12], Texts[21], Texts[23], Texts[24]>>
Pairs == [1..2 -> 1..Len(Texts)]
FewPairs == [1..2 -> 1..Len(Few)]
Triples == [1..3 -> 1..Len(Few)]
Ops == <<"lex", "print", "line", "json", "walk", "callback", "callback", "fold", "ruin">>
=============================================================================
