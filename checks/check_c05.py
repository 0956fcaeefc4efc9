from plancheck import PlanCheck


class CHECK(PlanCheck):
    id = "C05"
    kinds = ("first_search", "first_search", "later_search", "where", "where")
