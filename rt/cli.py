import sys
from rt.core import main
sys.exit(main())
