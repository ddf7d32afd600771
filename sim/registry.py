from . import props_conc as c
from . import props_disk as d
from . import props_input as i

PROPS = {
    x.id: x
    for x in (d.C01, d.C02, d.C03, d.C04, d.C05, i.C06, i.C07, d.C08, c.C09,
              c.C10, c.C11, i.C12, i.C13, c.C14, c.C15)
}
