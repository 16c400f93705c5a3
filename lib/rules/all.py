"""Registry of the properties."""
from . import physics, sampler, init, frame, runs, records, fits, cli, bg, modes, avg, conffile

PROPS = dict(physics.PROPS)
physics.load_all()
PROPS.update(physics.PROPS)
PROPS.update(runs.PROPS)
PROPS.update(records.PROPS)
PROPS.update(fits.PROPS)
PROPS.update(cli.PROPS)
PROPS.update(bg.PROPS)
PROPS.update(modes.PROPS)
import props
META = {q['id']: q for q in props.PROPERTIES}
PROPS.update(avg.PROPS)
PROPS.update(conffile.PROPS)
from . import misc
PROPS.update(misc.PROPS)
from . import fallible
PROPS.update(fallible.PROPS)
from . import fresh
PROPS.update(fresh.PROPS)
from . import bounds
PROPS.update(bounds.PROPS)
