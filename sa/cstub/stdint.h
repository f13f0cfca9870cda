typedef long int32_t_;
