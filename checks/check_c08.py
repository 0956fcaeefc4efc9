from plancheck import PlanCheck


class CHECK(PlanCheck):
    id = "C08"
    kinds = ("fields", "table", "rename", "fillnull", "eval", "addtotals", "convert", "makeresults", "bin")
    depth = 1
