// the command-line tools are C programs of the repository, given as extra sources
