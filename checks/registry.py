from . import rulecheck as rc

CHECKS = {
    "C01": rc.rdfs_rules,
    "C02": rc.table(4),
    "C03": rc.table(5),
    "C04": rc.table(6),
    "C05": rc.table(7),
    "C06": rc.table(9),
    "C08": rc.inconsistency,
    "C24": rc.extended,
    "C25": rc.combined,
}
from . import drv as driver
CHECKS["C09"] = driver.protocol
from . import onetime
CHECKS["C07"] = onetime.check
from . import axioms
CHECKS["C17"] = axioms.containers
CHECKS["C18"] = axioms.axioms
from . import effects
CHECKS["C12"] = effects.additive
CHECKS["C13"] = effects.destinations
CHECKS["C26"] = effects.trimming
from . import state
CHECKS["C15"] = state.restored
CHECKS["C16"] = state.conversions
from . import facade
CHECKS["C27"] = facade.selection
CHECKS["C28"] = facade.conversion
CHECKS["C29"] = facade.imports
CHECKS["C31"] = facade.arguments
from . import facets
CHECKS["C22"] = facets.facets
CHECKS["C23"] = facets.extraction
from . import lexical
CHECKS["C21"] = lexical.lexical
from . import cli
CHECKS["C30"] = cli.commandline
from . import cgi
CHECKS["C33"] = cgi.service
from . import total
CHECKS["C10"] = total.total
