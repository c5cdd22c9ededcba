from .boot import reexec

reexec()

from .runner import main  # noqa: E402

raise SystemExit(main())
