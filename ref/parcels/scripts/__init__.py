from .plottrajectoriesfile import plotTrajectoriesFile  # NOQA get flake8 to ignore unused import.
