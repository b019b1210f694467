#include "m_map.h"
#include "m_list.h"
/* keys alike in a hash table: small numbers */
